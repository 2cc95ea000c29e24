// Package simos replaces process-level operations: signals, exit, scheduling hints.
package simos

import (
	"context"
	"fmt"
	"os"

	"verif.local/sim/simctx"
	"verif.local/sim/simrt"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var regs []reg
var regGen int64

func fresh() {
	if g := simrt.Gen(); g != regGen {
		regGen = g
		regs = nil
	}
}

// Notify registers c for simulated signals.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	fresh()
	regs = append(regs, reg{c, sig})
}

func SignalStop(c chan<- os.Signal) {
	fresh()
	var k []reg
	for _, r := range regs {
		if r.c != c {
			k = append(k, r)
		}
	}
	regs = k
}

func SignalIgnore(...os.Signal) {}

// Raise delivers a simulated signal and reports whether anybody received it.
func Raise(s os.Signal) bool {
	fresh()
	got := false
	for _, r := range regs {
		match := len(r.sigs) == 0
		for _, x := range r.sigs {
			if x == s {
				match = true
			}
		}
		if match {
			c := simrt.SendCaseOf(r.c)(s)
			if simrt.Select(true, c) == 0 {
				got = true
			}
		}
	}
	return got
}

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := simctx.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	simrt.GoNamed("signalctx", func() {
		a, b := simrt.RecvCase[os.Signal](c), simrt.RecvCase[struct{}](ctx.Done())
		if simrt.Select(false, a, b) == 0 {
			cancel()
		}
	}).Daemon = true
	return ctx, cancel
}

func Gosched() { simrt.Yield() }

// Exit ends the simulated process.
func Exit(code int) {
	simrt.Fatal(fmt.Sprintf("os.Exit(%d)", code))
	panic(fmt.Sprintf("os.Exit(%d)", code))
}

func Fatal(v ...any) { simrt.Fatal("log.Fatal: " + fmt.Sprint(v...)); panic("log.Fatal") }
func Fatalf(f string, v ...any) {
	simrt.Fatal("log.Fatalf: " + fmt.Sprintf(f, v...))
	panic("log.Fatal")
}
func Fatalln(v ...any) { simrt.Fatal("log.Fatalln: " + fmt.Sprint(v...)); panic("log.Fatal") }
