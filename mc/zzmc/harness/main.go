// Command harness explores the units of one property.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	stdlog "log"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/xp"
	"github.com/sirupsen/logrus"
)

func main() {
	prop := flag.String("prop", "", "property")
	unit := flag.String("unit", "", "only this unit")
	w := flag.Int("w", 0, "worker")
	nw := flag.Int("nw", 1, "workers")
	deep := flag.Bool("deep", false, "thorough tier")
	seconds := flag.Float64("seconds", 60, "time budget")
	cur := flag.String("cur", "", "file that names the run in progress")
	known := flag.String("known", "", "known findings (JSON)")
	replay := flag.String("replay", "", "choices to replay (JSON)")
	trace := flag.Bool("trace", false, "print the operations of the replayed execution")
	list := flag.Bool("list", false, "list units")
	flag.Parse()
	out := os.Stdout
	emit := func(v interface{}) {
		b, _ := json.Marshal(v)
		out.Write(append(b, '\n'))
	}
	stdlog.SetOutput(io.Discard)
	logrus.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(1)
	xp.Deep = *deep
	var units []*xp.Unit
	total := 0
	for _, u := range xp.Units {
		if u.Prop != *prop && *prop != "" || *unit != "" && u.Name != *unit || u.Race != mcrt.RaceMode || u.Thorough && !*deep {
			continue
		}
		if u.Weight == 0 {
			u.Weight = 1
		}
		total += u.Weight
		units = append(units, u)
	}
	if *list {
		for _, u := range units {
			fmt.Println(u.Prop + "/" + u.Name)
		}
		return
	}
	if *replay != "" {
		var choices []int
		if err := json.Unmarshal([]byte(*replay), &choices); err != nil || len(units) != 1 {
			fmt.Fprintln(os.Stderr, "bad replay", err, len(units))
			os.Exit(2)
		}
		u := units[0]
		v := &xp.Violation{Unit: u.Prop + "/" + u.Name, Choices: choices}
		if u.Seq != nil {
			c, _ := xp.RunSeq(u, choices, 0, 1)
			if f := c.Failure(); f != "" {
				v.Msgs = []string{f}
			}
		} else {
			p := make([]uint16, len(choices))
			for i := range p {
				p[i] = uint16(choices[i])
			}
			res := xp.Exec(u, p, *trace)
			v.Msgs, v.Trace, v.Cost = res.Violations, res.Trace, res.Cost
			if res.Diverged != "" {
				v.Msgs = append(v.Msgs, "DIVERGED "+res.Diverged)
			}
			if *trace {
				v.Trace = append(v.Trace, "log: "+strings.Join(res.Log, "; "))
			}
		}
		emit(v)
		return
	}
	r := &xp.Runner{W: *w, NW: *nw, CurFile: *cur}
	if *known != "" {
		if err := json.Unmarshal([]byte(*known), &r.Known); err != nil {
			fmt.Fprintln(os.Stderr, "bad known findings", err)
			os.Exit(2)
		}
	}
	go func() {
		for {
			time.Sleep(5 * time.Second)
			if t := xp.Watch; t != 0 && time.Since(time.Unix(0, t)) > 150*time.Second {
				fmt.Fprintln(out, `{"Err":"hang"}`)
				os.Exit(7)
			}
		}
	}()
	start := time.Now()
	spent := 0
	for _, u := range units {
		// unused time of earlier units is available to the later ones
		spent += u.Weight
		r.Deadline = start.Add(time.Duration(*seconds * float64(time.Second) * float64(spent) / float64(total)))
		rep := r.Run(u)
		emit(rep)
		if rep.Violation != nil || rep.Err != "" {
			return
		}
	}
}
