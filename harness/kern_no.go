//go:build !kern

package main

const haveKernels = false

func kernelPhase(c *C) {}
