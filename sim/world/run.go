package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

// Result is what one run showed.
type Result struct {
	Digest  uint64
	Sched   uint64
	Events  int
	SimTime int64
	Yields  uint64
	Viol    []Violation
	Probes  map[string]int
	Fired   []string
	Err     error // trouble of the harness; no verdict
	Budget  bool  // event budget used up; no verdict on liveness
	Tail    []string
}

// runPlan executes a plan in a fresh scratch directory.
func runPlan(pl *Plan, scratch, bin, trace string, tgt *target) (res *Result) {
	res = &Result{}
	pl = clonePlan(pl) // a run may change its copy
	os.RemoveAll(scratch)
	if err := os.MkdirAll(scratch, 0755); err != nil {
		res.Err = err
		return
	}
	s := NewSim(pl, scratch, bin)
	s.tgt = tgt
	if pl.MaxEv > 0 {
		s.maxEv = pl.MaxEv
	}
	if trace != "" {
		f, err := os.Create(trace)
		if err != nil {
			res.Err = err
			return
		}
		s.traceW = f
		defer f.Close()
	}
	defer func() {
		if e := recover(); e != nil {
			if he, ok := e.(harnessError); ok {
				res.Err = he
			} else {
				res.Err = fmt.Errorf("simulator panic: %v\n%s", e, debug.Stack())
			}
		}
		s.KillAll()
		res.Digest, res.Events, res.SimTime, res.Viol, res.Probes, res.Fired, res.Yields = s.digest, s.nev, s.Now-s.Start, s.Viol, s.Probes, s.Fired, s.yields
		res.Sched = s.schedH
		res.Tail = s.tail
		if os.Getenv("CRLSIM_KEEP") == "" {
			os.RemoveAll(scratch)
		}
	}()
	var err error
	switch pl.Scenario {
	case "pipeline":
		err = runPipe(s)
	case "crl":
		err = runCRL(s)
	default:
		err = fmt.Errorf("unknown scenario %q", pl.Scenario)
	}
	if err == errBudget {
		res.Budget = true
	} else if err != nil && err != errStopped {
		res.Err = err
	}
	return
}

func runPipe(s *Sim) error {
	w := NewPipe(s)
	pl := s.Plan
	s.faultsOn = true
	s.At(s.Start+pl.FaultEnd, func() { s.faultsOn = false })
	for _, e := range pl.Events {
		e := e
		s.At(s.Start+e.At, func() { w.event(e) })
	}
	s.At(s.Start, w.startFetch)
	if pl.StopAt > 0 {
		return s.Run(s.Start+pl.StopAt, nil)
	}
	if err := s.Run(s.Start+pl.End, nil); err != nil {
		return err
	}
	return w.finale()
}
