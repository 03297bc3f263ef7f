package main

import "runtime"

func runtimeStack(b []byte) int { return runtime.Stack(b, false) }
