package drv

import (
	"os"
	"syscall"
)

// dupStdout keeps the answer channel on a private descriptor and sends what the code
// under test prints to stdout to stderr instead.
func dupStdout() int {
	fd, err := syscall.Dup(1)
	if err != nil {
		os.Exit(96)
	}
	if err := syscall.Dup3(2, 1, 0); err != nil {
		os.Exit(96)
	}
	return fd
}
