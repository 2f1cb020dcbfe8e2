package main

import (
	"github.com/younglifestyle/secs4go/gem"

	"verifharness/trace"
)

// controlX is the control state machine by itself.
type controlX struct {
	h  *rec
	sm *gem.ControlStateMachine
}

func newControlX(h *rec, l *cLine) *controlX {
	o := gem.ControlStateMachineOptions{InitialState: gem.ControlStateOnline, InitialOnlineMode: gem.OnlineModeRemote}
	for s, n := range ctlCode {
		if n == l.Init {
			o.InitialState = s
		}
	}
	if l.Mode == "LOCAL" {
		o.InitialOnlineMode = gem.OnlineModeLocal
	}
	return &controlX{h, gem.NewControlStateMachine(o)}
}

func (x *controlX) do(o *cOp) {
	x.h.do(trace.E{"f": o.F}, func(id int, l trace.E) {
		var err error
		switch o.F {
		case "state":
			l["res"] = ctl(x.sm.State())
			return
		case "mode":
			l["res"] = "REMOTE"
			if x.sm.OnlineMode() == gem.OnlineModeLocal {
				l["res"] = "LOCAL"
			}
			return
		case "online":
			l["res"] = map[bool]string{true: "yes", false: "no"}[x.sm.IsOnlineState()]
			return
		case "start":
			x.sm.Start()
		case "swOn":
			err = x.sm.SwitchOnline()
		case "swOff":
			err = x.sm.SwitchOffline()
		case "swLocal":
			err = x.sm.SwitchOnlineLocal()
		case "swRemote":
			err = x.sm.SwitchOnlineRemote()
		case "failEO":
			err = x.sm.AttemptOnlineFailEquipmentOffline()
		case "failHO":
			err = x.sm.AttemptOnlineFailHostOffline()
		case "success":
			err = x.sm.AttemptOnlineSuccess()
		case "remOff":
			err = x.sm.RemoteOffline()
		case "remOn":
			err = x.sm.RemoteOnline()
		default:
			panic("harness: unknown operation " + o.F)
		}
		l["res"] = "ok"
		if err != nil {
			l["res"] = "bad"
		}
	})
}

func (x *controlX) settle() { x.do(&cOp{F: "state"}); x.do(&cOp{F: "mode"}) }
func (x *controlX) end()    {}
