//go:build !verif

package main

const hooked = false

func setHook(f func(event string, id int, name string)) {}
