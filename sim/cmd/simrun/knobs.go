package main

import "verif.local/sim/hook"

// knobsFor draws the configuration of one run of a property's search. Every run mixes its operations and
// faults differently: some runs concentrate on few kinds, some are large.
func knobsFor(prop string, r *rng) knobs {
	k := knobs{
		setup: 3 + r.n(14), per: 3 + r.n(8),
		sel: 10, ins: 5, upd: 8, del: 3,
		fork: 20 + r.n(60), cross: 30 + r.n(60), frag: 5, useFrag: 15, sub: 8,
		mapArgs: 30 + r.n(50), aliasKeys: 20, valuer: 4, enc: 4, timeptr: 2,
		render: 15 + r.n(20), formQ: 5, formN: 3, formS: 3, formW: 1,
		owned: 10, spread: 5, final: true, colAlias: 20, rows: 15, big: 3, longStr: 2, specialChars: 10,
		renderTwice: 10, kinds: 10, share: 20, spaces: 6, repeat: 0, zero: 4, extremes: 3, chain: 15,
	}
	k.describe, k.describing = 20, "panic,exit,stall,reent,reent"
	if r.p(30) {
		k.repeat = 10 + r.n(40)
	}
	if r.p(30) {
		k.boxes = 10 + r.n(60)
	}
	if r.p(20) {
		k.siege = 3 + r.n(15)
	}
	if r.p(20) {
		k.spaces, k.zero = 30, 20
	}
	if r.p(20) {
		k.extremes = 30
	}
	if r.p(35) {
		k.names = 10 + r.n(60)
	}
	if r.p(3) {
		k.huge = 20
	}
	if r.p(40) {
		k.reject = 3 + r.n(5)
	}
	if r.p(12) {
		k.streak = 4 + r.n(8)
	}
	if r.p(30) {
		k.compose = 2 + r.n(8)
	}
	if r.p(40) {
		k.echo = 5 + r.n(20)
	}
	if r.p(10) {
		k.press = 3 + r.n(5)
	}
	// swarm: sometimes one kind of statement only
	switch r.n(7) {
	case 0:
		k.sel, k.ins, k.upd, k.del = 30, 1, 1, 1
	case 1:
		k.sel, k.ins, k.upd, k.del = 1, 1, 30, 1
	case 2:
		k.sel, k.ins, k.upd, k.del = 1, 30, 1, 1
	case 3:
		if r.p(40) {
			k.sel, k.ins, k.upd, k.del = 1, 1, 1, 30
		}
	}
	if r.p(12) {
		k.big, k.longStr = 40, 10
	}
	k.midStr = []int{5, 15, 50}[r.n(3)]
	threads := func(single int) {
		if r.p(single) {
			k.threads = 0
			k.setup = 6 + r.n(30)
			if r.p(10) {
				k.setup += 60
			}
			return
		}
		k.threads = 2 + r.n(2)
		if r.p(25) {
			k.threads = 4 + r.n(3)
		}
		if r.p(4) { // a crowd
			k.threads, k.per = 8+r.n(17), 1+r.n(4)
		}
	}
	switch prop {
	case "C01":
		threads(70)
		k.fork = 40 + r.n(55)
		if r.p(60) {
			k.siege = 20 + r.n(40)
		}
		k.enc, k.valuer = 1, 1
		k.frag, k.useFrag = r.n(20), r.n(40)
	case "C02":
		threads(0)
		k.cross = 60 + r.n(40)
		k.render = 15 + r.n(60)
		k.frag, k.useFrag = r.n(25), r.n(60)
		if r.p(30) { // readers only: everything is made before the threads start
			k.setup, k.render, k.per = 8+r.n(10), 100, 2+r.n(5)
		}
		if r.p(20) {
			k.reent = 20
		}
	case "C03":
		threads(60)
		k.reject = 15 + r.n(40)
		k.rejectExit = 25
		k.describe, k.describing = 60, "panic,exit,exit,stall,reent"
		k.mapArgs = 20 + r.n(60)
		k.owned, k.spread = 3, 2
		if r.p(60) {
			k.echo = 10 + r.n(20)
		}
		if r.p(30) {
			k.owned, k.spread = 30, 20
		}
		k.frag, k.useFrag = r.n(15), r.n(30)
	case "C04":
		threads(50)
		k.formQ, k.formN, k.formS, k.formW = 2, 1, 4, 6
		k.abort = 40 + r.n(50)
		k.abortExit = 30
		if r.p(10) {
			k.big, k.huge = 30, r.n(2)*20
		}
		k.valuer = 15 + r.n(20)
		k.cbFault, k.cbRate = "err,err,panic,exit", 15+r.n(40)
		k.render = 30 + r.n(40)
		k.renderTwice = 30
		k.writeFrag = 5
		if r.p(30) {
			k.press = 5 + r.n(15)
		}
	case "C05":
		k.threads = 0
		k.kinds = 25
		k.share = 40
		k.setup = 4 + r.n(16)
		k.mapArgs = 90
		k.aliasKeys = 40
		k.sel, k.ins, k.upd, k.del = 2, 8, 12, 1
		if r.p(30) {
			k.sel = 10
		}
		if r.p(40) {
			k.collide = 40
		}
		k.frag = 10
		k.renderTwice = 40
		k.longStr = 0
	case "C07":
		threads(60)
		k.formQ, k.formN, k.formS, k.formW = 5, 5, 1, 2
		k.sub = 10 + r.n(30)
		k.frag, k.useFrag = r.n(20), r.n(40)
		k.valuer = 10
		if r.p(40) {
			k.big = 30 + r.n(50)
		}
		if r.p(20) {
			k.huge = 40
		}
		k.specialChars = 30
		if r.p(40) {
			k.abort, k.formW = 60, 5
		}
		if r.p(30) {
			k.cbFault, k.cbRate, k.formS = "err,panic", 30, 5
		}
	case "C08":
		threads(40)
		k.formQ, k.formN, k.formS, k.formW = 4, 4, 2, 1
		k.spoil = 10 + r.n(20)
		k.render = 30 + r.n(40)
		k.renderTwice = 40
		k.big = 10
		k.longStr = 8
		if r.p(40) {
			k.press = 5 + r.n(15)
		}
	case "C09":
		threads(60)
		k.owned = 40 + r.n(60)
		k.spread = 20 + r.n(60)
		if r.p(50) {
			k.boxes = 20 + r.n(70)
		}
		k.clobber = 8 + r.n(15)
		k.rows = 40
		k.longOwn = r.p(15)
		k.frag, k.useFrag = r.n(20), r.n(40)
	case "C10":
		threads(65)
		k.enc, k.timeptr = 15+r.n(40), 5+r.n(15)
		if r.p(50) {
			k.reject = 10 + r.n(20)
		}
		k.tick = 60
		k.share = 50
		k.jump = 8 + r.n(20)
		k.frag, k.useFrag = r.n(30), r.n(50)
		k.sub = 15
		k.renderTwice = 30
	case "C11":
		threads(65)
		k.valuer = 25 + r.n(40)
		k.cbFault, k.cbRate = "err,err,panic,exit", 10+r.n(60)
		k.formQ, k.formN, k.formS, k.formW = 4, 3, 4, 2
		k.render = 25 + r.n(40)
		k.frag, k.useFrag = r.n(20), r.n(40)
		k.sub = 15
		if r.p(12) {
			k.big, k.huge = 30, r.n(2)*30
		}
	case "C12":
		threads(0)
		k.valuer, k.enc = 15+r.n(20), 10+r.n(15)
		k.cbFault, k.cbRate = "stall,stall,reent", 30+r.n(50)
		k.encFault, k.encRate = "stall,reent", 40
		k.sinkStall, k.reent = 40, 20
		k.describe, k.describing = 70, "stall,reent,reent"
		if r.p(25) {
			k.reject = 10 + r.n(25)
		}
		if r.p(25) {
			k.cascade = 2 + r.n(6)
		}
		if r.p(4) { // a jam
			k.jam, k.threads = true, []int{5, 9, 13, 17, 24, 33, maxThreads}[r.n(7)]
			k.setup, k.valuer, k.cbFault, k.cbRate, k.formS = 2+r.n(4), 70, "stall", 100, 40
			k.nostop, k.big, k.huge = true, 0, 0
		}
		k.formQ, k.formN, k.formS, k.formW = 3, 2, 5, 4
		k.render = 30 + r.n(40)
		k.cross = 20 + r.n(70)
	case "C13":
		threads(50)
		k.frag = 25 + r.n(25)
		k.useFrag = 50 + r.n(50)
		k.cross = 60 + r.n(40)
		k.writeFrag = 8
		k.chain = 20 + r.n(30)
		if r.p(25) {
			k.spine = 10 + r.n(20)
		}
		k.fork = 30 + r.n(50)
		k.sub = 15
	}
	return k
}

// makePlan draws the plan of one run.
func makePlan(prop string, seed uint64, focus []int32, points int, cold bool) *Plan {
	g := newGen(prop, seed)
	if prop == "C06" {
		lexGen(g, cold)
	} else {
		g.k = knobsFor(prop, g.r)
		g.hugeLeft = 2
		if cold {
			g.k.setup, g.k.per = 0, 1+g.r.n(4)
			if g.k.threads == 0 || g.r.p(50) {
				g.k.threads = 2 + g.r.n(5)
			}
			g.k.cross /= 4
			if g.k.chorus = g.r.p(70); g.k.chorus {
				g.k.cross, g.k.per = 0, g.r.n(2)
				g.k.big, g.k.huge = 0, 0
				g.k.final = g.r.p(30)
			}
		}
		g.k.words = !cold && (g.r.p(1) || prop == "C05" && g.r.p(2))
		rate := 2
		if len(focus) > 0 && focus[0] == 0 {
			rate = 15
		}
		if !cold && g.k.threads > 1 && prop != "C05" && (g.k.jam || g.r.p(rate)) {
			g.k.crowd, g.k.final, g.k.per, g.k.siege = true, false, g.r.n(2), 0
			if g.k.setup < 3 {
				g.k.setup = 3 + g.r.n(5)
			}
		}
		if !cold && !g.k.crowd && g.k.threads > 1 {
			rate := 4
			switch prop {
			case "C01", "C02", "C09", "C13":
				rate = 15
			}
			if g.r.p(rate) {
				g.k.throng, g.k.per, g.k.setup = 1+g.r.n(2)*g.r.n(3), 0, 2+g.r.n(8)
			}
		}
		g.build()
		if g.k.collide > 0 {
			g.p.Tags = append(g.p.Tags, "collide")
		}
	}
	g.schedule(points)
	if cold && g.p.Threads > 1 && g.r.p(60) {
		g.p.Strategy, g.p.Changes, g.p.Focus = hook.Random, nil, nil
		g.p.P = []uint32{65000, 32768, 16384, 4096}[g.r.n(4)]
	}
	if len(focus) > 0 {
		for i := range g.p.Focus {
			g.p.Focus[i] = focus[g.r.n(len(focus))]
		}
	}
	if prop == "C05" {
		for i := 0; i < 3; i++ {
			g.p.MapSeeds = append(g.p.MapSeeds, g.r.u64()|1)
		}
	}
	if prop == "C01" && g.p.Threads > 0 {
		switch g.r.n(5) {
		case 0, 1:
			if g.k.throng > 0 {
				break
			}
			g.p.Strategy, g.p.P, g.p.Changes, g.p.Focus = hook.OpOnly, 32768, nil, nil
		case 2, 3:
			g.p.Strategy, g.p.Changes, g.p.Focus = hook.Random, nil, nil
			g.p.P = []uint32{65000, 32768, 16384, 4096}[g.r.n(4)]
		}
	}
	g.syncOnly(focus)
	return g.p
}

// syncOnly makes some runs switch at operations of synchronisation only, if the library has any: there are few
// of these, so that even several switches at certain ones are found.
func (g *gen) syncOnly(focus []int32) {
	if len(focus) == 0 || focus[0] != 0 || g.p.Threads < 2 || !g.r.p(30) {
		return
	}
	g.p.Sync, g.p.Focus, g.p.Changes = true, nil, nil
	if g.r.p(60) {
		g.p.Strategy = hook.Random
		g.p.P = []uint32{60000, 32768, 16384, 8192}[g.r.n(4)]
		return
	}
	g.p.Strategy = hook.PCT
	at := 0
	for i := 1 + g.r.n(5); i > 0; i-- {
		at += 1 + g.r.n([]int{6, 30, 150}[g.r.n(3)])
		g.p.Changes = append(g.p.Changes, at)
	}
}
