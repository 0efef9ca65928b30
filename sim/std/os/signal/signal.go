// Package signal replaces os/signal: no signals arrive in the simulation
// except those that kill.
package signal

import (
	"context"
	"os"

	zctx "ZZSIM/std/context"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {}
func Stop(c chan<- os.Signal)                      {}
func Ignore(sig ...os.Signal)                      {}
func Reset(sig ...os.Signal)                       {}
func Ignored(sig os.Signal) bool                   { return false }

func NotifyContext(parent context.Context, signals ...os.Signal) (context.Context, context.CancelFunc) {
	return zctx.WithCancel(parent)
}
