"""Where runs take place: directories with unusual names, paths written in different ways."""
import os, re

NAMES = ["%s"] * 4 + ["%s run", "%s [a-b]", "%s [!x]*", "run(%s)", "%s.dat", "{%s,x}", "~%s", "donn\u00e9es %s", "$HOME %s", "%s'", "-%s"]


def place(rng, base, name):
    """a directory name for a run, not made yet"""
    return os.path.join(base, rng.choice(NAMES) % name)


def respell(rng, text, d):
    """the same configuration with its paths below d (the working directory of the command) spelled another way"""
    if rng.random() < .5:
        text = text.replace(d + "/", rng.choice(["", "./", d + "/./", d + "//", "../%s/" % os.path.basename(d)]))
    if rng.random() < .3:
        text = re.sub(r"^((?:Iterated)?(?:Input|Output) = .*)$", r"\1/", text, flags=re.M)
    return text
