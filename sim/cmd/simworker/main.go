// simworker executes simulated runs, one after another.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"

	"verifsim/core"
	"verifsim/simos"
	"verifsim/simrt"
)

var out *bufio.Writer

func emit(kind string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(out, "%s %s\n", kind, b)
	out.Flush()
}

func main() {
	prop := flag.String("prop", "", "property")
	from := flag.Uint64("from", 0, "first seed")
	step := flag.Uint64("step", 1, "seed step")
	count := flag.Uint64("n", 1, "number of seeds")
	file := flag.String("case", "", "case file (JSON lines)")
	trace := flag.Bool("trace", false, "print the event trace")
	gen := flag.Bool("gen", false, "only print the cases")
	tier := flag.String("tier", "quick", "tier")
	cov := flag.String("cov", "", "write statement coverage here")
	reverse := flag.Bool("reverse", false, "seeds in descending order")
	stop := flag.Bool("stop", false, "stop after a run that left goroutines behind")
	flag.Parse()
	core.Tier = *tier
	runtime.GOMAXPROCS(1)
	runtime.MemProfileRate = 0
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
	// what the code under test prints must not mix with the protocol
	out = bufio.NewWriter(os.NewFile(3, "protocol"))
	simrt.OnLimit = func() {
		emit("RUNAWAY", map[string]string{"stack": stack()})
		os.Exit(42)
	}
	simos.OnExit = func(code int) {
		emit("EXIT", map[string]any{"code": code, "stack": stack()})
		os.Exit(43)
	}
	run := func(c *core.Case) bool {
		emit("BEGIN", map[string]any{"seed": c.Seed})
		res := core.Exec(c, *trace)
		emit("END", res)
		return !(*stop && res.Dirty)
	}
	if *file != "" {
		f, err := os.Open(*file)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			if strings.TrimSpace(sc.Text()) == "" {
				continue
			}
			var c core.Case
			d := json.NewDecoder(strings.NewReader(sc.Text()))
			if err := d.Decode(&c); err != nil {
				fmt.Fprintln(os.Stderr, "case:", err)
				os.Exit(4)
			}
			if !run(&c) {
				break
			}
		}
	} else {
		for i := uint64(0); i < *count; i++ {
			j := i
			if *reverse {
				j = *count - 1 - i
			}
			c := core.GenCase(*prop, *from+j**step)
			if *gen {
				emit("CASE", c)
				continue
			}
			if !run(c) {
				break
			}
		}
	}
	emit("DONE", map[string]int{})
	if *cov != "" {
		var sb strings.Builder
		for i, n := range simrt.Coverage() {
			if n > 0 {
				sb.WriteString(strconv.Itoa(i) + " " + strconv.Itoa(int(n)) + "\n")
			}
		}
		os.WriteFile(*cov, []byte(sb.String()), 0644)
	}
}

func stack() string {
	b := make([]byte, 1<<18)
	return string(b[:runtime.Stack(b, true)])
}
