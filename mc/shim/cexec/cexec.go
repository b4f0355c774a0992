// Code generated by mcgen shim. DO NOT EDIT.

// Package cexec stands in for os/exec in the instrumented code.
package cexec

import (
	"context"
	"os/exec"
	rt "verif.local/mc/rtcli"
)

type Cmd = exec.Cmd

func Command(a0 string, a1 ...string) (r0 *exec.Cmd) {
	_ = rt.Op("exec.Command", a0)
	return exec.Command(a0, a1...)
}
func CommandContext(a0 context.Context, a1 string, a2 ...string) (r0 *exec.Cmd) {
	_ = rt.Op("exec.CommandContext", a1)
	return exec.CommandContext(a0, a1, a2...)
}

var ErrDot = exec.ErrDot
var ErrNotFound = exec.ErrNotFound
var ErrWaitDelay = exec.ErrWaitDelay

type Error = exec.Error
type ExitError = exec.ExitError

func LookPath(a0 string) (r0 string, r1 error) {
	if e := rt.Op("exec.LookPath", a0); e != nil {
		r1 = e
		return
	}
	return exec.LookPath(a0)
}
