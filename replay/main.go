// Command replay runs harnesses natively on concrete inputs, against the real code.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"time"

	"verif/harness"
	"verif/sym"
)

type request struct {
	H     string         `json:"h"`
	Opts  map[string]int `json:"opts"`
	In    []uint64       `json:"in"`
	Sched []uint64       `json:"sched"`
	Loops int            `json:"loops"`
	Show  bool           `json:"show"`
	MS    int            `json:"ms"`
}

type response struct {
	Out   string   `json:"out"` // ok, assume, fail, known, panic, timeout
	Msg   string   `json:"msg"`
	Obs   uint64   `json:"obs"`
	Reach []string `json:"reach"`
	Over  bool     `json:"over"`
	Text  string   `json:"text,omitempty"`
}

func one(q request) (res response) {
	f := harness.All[q.H]
	if f == nil {
		return response{Out: "panic", Msg: "no harness " + q.H}
	}
	r := &sym.Run{In: q.In, Sched: q.Sched, Opts: q.Opts}
	sym.Cur = r
	defer r.Clean()
	defer func() {
		x := recover()
		res.Reach = r.Reached
		res.Over = r.Over
		h := fnv.New64a()
		h.Write(r.Obs)
		res.Obs = h.Sum64()
		if q.Show {
			res.Text = string(r.Obs)
		}
		if x == nil {
			res.Out = "ok"
			return
		}
		if e, ok := x.(sym.End); ok {
			res.Out, res.Msg = e.Kind, e.Msg
			return
		}
		res.Out = "panic"
		res.Msg = fmt.Sprint(x)
		if q.Show {
			res.Text += "\n" + string(debug.Stack())
		}
	}()
	f()
	return
}

func main() {
	debug.SetMemoryLimit(4 << 30)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, "bad request:", err)
			os.Exit(2)
		}
		if q.Loops < 1 {
			q.Loops = 1
		}
		if q.MS == 0 {
			q.MS = 10000
		}
		done := make(chan response, 1)
		go func() {
			var r response
			for i := 0; i < q.Loops; i++ {
				r = one(q)
				if r.Out != "ok" {
					break
				}
			}
			done <- r
		}()
		select {
		case r := <-done:
			out.Encode(r)
		case <-time.After(time.Duration(q.MS) * time.Millisecond):
			out.Encode(response{Out: "timeout", Msg: "no result in time"})
			os.Exit(3)
		}
	}
}
