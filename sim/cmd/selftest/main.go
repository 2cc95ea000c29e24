// Command selftest checks the simulator itself: semantics of rewritten code,
// reachability of known concurrency bugs, determinism and replay.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"time"

	"verif.local/sim/selftest/sut"
	"verif.local/sim/simrt"
)

func main() {
	bad := 0
	fail := func(f string, a ...any) { bad++; fmt.Printf("FAIL "+f+"\n", a...) }
	seen := map[string]int{}
	inter := map[uint64]bool{}
	t0 := time.Now()
	const N = 600
	for seed := uint64(1); seed <= N; seed++ {
		one := func(d *simrt.Decisions) (*simrt.Sim, simrt.Outcome, string) {
			cfg := simrt.NewConfig(d)
			res := ""
			s, o := simrt.Run(cfg, d, false, func() {
				v, err := sut.Pipeline(10)
				res += fmt.Sprint(v, err, ";")
				res += sut.Selects() + ";" + sut.Maps() + ";"
				res += fmt.Sprint(sut.RangeDelete(), ";")
				r := sut.Race()
				res += fmt.Sprint("race", r, ";")
				res += fmt.Sprint("locked", sut.Locked(), ";")
				e, el := sut.Timeouts(context.Background())
				res += fmt.Sprint(e, el >= 30*time.Second, ";")
				x, err := sut.Tuple()
				res += fmt.Sprint(x, err, ";", sut.Cond(), ";")
				res += fmt.Sprint("rand", sut.Rand())
				simrt.Logf("%s", res)
				simrt.GoNamed("f", sut.Forever)
				switch seed % 3 {
				case 0:
					sut.MapCrash()
				case 1:
					sut.Deadlock()
				}
			})
			return s, o, res
		}
		d := simrt.NewDecisions(seed)
		s, o, res := one(d)
		seen[o.Kind+" "+o.Msg]++
		inter[s.InterHash()] = true
		var race int
		var rest string
		_ = rest
		for i := 1; i <= 4; i++ {
			if contains(res, fmt.Sprintf("race%d;", i)) {
				race = i
			}
		}
		seen[fmt.Sprint("race", race)]++
		if !contains(res, "locked4;") || !contains(res, "90<nil>;") && !contains(res, "90 <nil>") {
			fail("seed %d: %s", seed, res)
		}
		if !contains(res, "context deadline exceededtrue;13<nil>;6") && !contains(res, "context deadline exceeded true;13 <nil>;6") {
			if !contains(res, "13 <nil>") {
				fail("seed %d: %s", seed, res)
			}
		}
		if !contains(res, "0 1 2") && o.Kind == "x" {
			fail("maps %s", res)
		}
		d2 := simrt.NewDecisions(seed)
		s2, o2, res2 := one(d2)
		if s2.LogHash() != s.LogHash() || res != res2 || o2.Kind != o.Kind {
			fail("seed %d not deterministic:\n%s\n%s", seed, res, res2)
		}
		// replay through JSON
		b, _ := json.Marshal(d.Rec)
		var rec simrt.Record
		json.Unmarshal(b, &rec)
		s3, o3, res3 := one(simrt.ReplayDecisions(rec))
		if res3 != res || o3.Kind != o.Kind || s3.LogHash() != s.LogHash() {
			fail("seed %d replay differs: %s/%s\n%s\n%s", seed, o.Kind, o3.Kind, res, res3)
		}
		if seed == 7 {
			fmt.Println(res, o.Kind, o.Blocked, len(d.Rec.Sched))
		}
	}
	fmt.Println(seen, len(inter), time.Since(t0))
	if bad > 0 {
		os.Exit(1)
	}
}

func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}
