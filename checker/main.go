package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	repo, verif := "/repo", "/verif"
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	P, err := loadRepo(repo, verif)
	if err != nil {
		fmt.Println("ERR", err)
		if len(os.Args) > 2 && os.Args[1] == "check" {
			r := newReport(os.Args[2])
			r.bad("load", "the repository cannot be analysed: %v", err)
			os.Exit(r.finish(verif))
		}
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(P, verif, os.Args[2]))
	case "ringcalls":
		ringCalls(P)
	case "dom":
		f, v := "", false
		if len(os.Args) > 2 {
			f = os.Args[2]
		}
		if len(os.Args) > 3 {
			v = true
		}
		domDebug(P, f, v)
	case "domvn":
		f := ""
		if len(os.Args) > 2 {
			f = os.Args[2]
		}
		domFormulas(P, f)
	case "domout":
		f := ""
		if len(os.Args) > 2 {
			f = os.Args[2]
		}
		domOut(P, f)
	case "gen":
		if err := genEffSpec(P, verif); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	case "effects":
		tot := 0
		fs := apiFuncs(P)
		rs := make([]*EffectRun, len(fs))
		parallel(len(fs), func(i int) {
			if len(os.Args) > 2 && !strings.Contains(fname(fs[i]), os.Args[2]) {
				return
			}
			rs[i] = runEffects(P, fs[i])
		})
		for i, f := range fs {
			R := rs[i]
			if R == nil {
				continue
			}
			t0 := time.Now()
			tot += R.Steps
			fmt.Printf("== %s steps=%d %v err=%s panics=%v\n", fname(f), R.Steps, time.Since(t0).Round(time.Millisecond), R.Err, R.Panics)
			for _, k := range sortedKeys(R.Writes) {
				fmt.Printf("   W %s   @ %s\n", k, P.instrPos(R.Writes[k].Instr))
			}
			for _, sh := range R.shares() {
				fmt.Printf("   S %s -> %s %s (%s) via %s imm=%s\n", sh.From, sh.To, sh.Path, shortType(sh.Obj.typ), sh.Via, immutableObj(sh.Obj))
			}
			for _, k := range sortedKeys(R.Undec) {
				fmt.Printf("   U %s\n", k)
			}
		}
		fmt.Println("total", tot)
	}
}

func runCheck(P *Prog, verif, id string) (code int) {
	r := newReport(id)
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("analysis failed:", e)
			panic(e)
		}
	}()
	S, err := loadEffSpec(verif)
	if err != nil {
		fmt.Println("spec:", err)
		return 2
	}
	switch id {
	case "P01":
		checkP01(P, r, S)
	case "P02":
		checkP02(P, r, S)
	case "P03":
		checkP03(P, r, S)
	case "P16":
		checkP16(P, r, S)
	case "P14":
		checkP14(P, r)
	case "P05":
		checkP05(P, r)
	case "P06":
		checkP06(P, r)
	case "P07":
		checkP07(P, r)
	case "P08":
		checkP08(P, r)
	case "P09":
		checkP09(P, r)
	case "P10":
		checkP10(P, r)
	case "P11":
		checkP11(P, r)
	case "P04":
		checkP04(P, r)
	case "P19":
		checkP19(P, r)
	case "P17":
		checkP17(P, r)
	case "P20":
		checkP20(P, r)
	default:
		fmt.Println("unknown property", id)
		return 2
	}
	return r.finish(verif)
}
