package main

import "strings"

type repl struct{ pkg, name string }

const simBase = "verif.local/sim/"

func buildTable(seams []string) map[string]repl {
	t := map[string]repl{}
	add := func(from, to string, names string) {
		for _, n := range strings.Fields(names) {
			a, b, ok := strings.Cut(n, "=")
			if !ok {
				b = a
			}
			t[from+"."+a] = repl{to, b}
		}
	}
	add("time", "simtime", "Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker")
	add("sync", "simsync", "Mutex RWMutex WaitGroup Once OnceFunc OnceValue OnceValues Cond NewCond Pool Map Locker")
	add("sync/atomic", "simatomic", `AddInt32 AddInt64 AddUint32 AddUint64 AddUintptr LoadInt32 LoadInt64 LoadUint32 LoadUint64 LoadUintptr
		StoreInt32 StoreInt64 StoreUint32 StoreUint64 StoreUintptr SwapInt32 SwapInt64 SwapUint32 SwapUint64
		CompareAndSwapInt32 CompareAndSwapInt64 CompareAndSwapUint32 CompareAndSwapUint64
		Int32 Int64 Uint32 Uint64 Bool Pointer Value`)
	add("context", "simctx", "WithCancel WithCancelCause WithDeadline WithDeadlineCause WithTimeout WithTimeoutCause Cause AfterFunc WithoutCancel")
	rnd := "Seed Int63 Uint32 Uint64 Int31 Int Int63n Int31n Intn Float64 Float32 NormFloat64 ExpFloat64 Perm Shuffle Read"
	add("math/rand", "simrand", rnd+" New NewSource Source Rand")
	add("golang.org/x/exp/rand", "simrand", strings.Replace(rnd, "Seed", "Seed=SeedU", 1)+" Uint64n")
	add("math/rand/v2", "simrand", "Int Int64 Int32 IntN Int64N Int32N Uint32 Uint64 Float64 Float32 NormFloat64 ExpFloat64 Perm Shuffle")
	add("os/signal", "simos", "Notify NotifyContext Stop=SignalStop Ignore=SignalIgnore")
	add("runtime", "simos", "Gosched")
	add("os", "simos", "Exit")
	add("log", "simos", "Fatal Fatalf Fatalln")
	add("golang.org/x/exp/maps", "simmaps", "Keys Values")
	for _, s := range seams {
		switch s {
		case "":
		case "fs":
			add("os", "simos", `WriteFile Create OpenFile Open ReadFile MkdirAll Mkdir Remove RemoveAll Rename Stat Lstat ReadDir Chmod
				File Getwd MkdirTemp CreateTemp Symlink CopyFS`)
			add("os/exec", "simos", "Command CommandContext Cmd LookPath")
			add("io", "simos", "Copy WriteString")
		case "http":
			add("net/http", "simhttp", "Client Server DefaultClient Get Post PostForm Head Transport DefaultTransport ListenAndServe NewRequest NewRequestWithContext")
		case "net":
			add("net", "simnet", "Dial DialTimeout Dialer Listen")
		default:
			die("unknown seam %q", s)
		}
	}
	return t
}
