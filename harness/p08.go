package main

import (
	"math"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
)

func init() { register("P08", p08) }

func p08(c *Ctx) {
	c.Rule("time providers with random and extreme genesis slot / genesis time / slot duration / slots-per-epoch exponent; per provider slots and epochs at, one before and one after every boundary (genesis, epoch starts and ends, random, near the end of the representable range) and times at boundaries ±1ns, ±1s; every conversion compared with an independent big-integer model and with its inverse; distinct = (parameters class, slot position class, function).")
	c.Assume("Slots and times are within the range in which the protocol's 32 bit slot indexes and Go's time arithmetic (±292 years around the genesis) are exact.")

	c.Run("known/double-genesis", 1, func(t *Case) {
		tp := iotago.NewTimeProvider(1000, 1_700_000_000, 10, 3)
		cl := refClock{1000, 1_700_000_000, 10, 3}
		if got := uint64(tp.SlotsBeforeNextEpoch(1003)); got == cl.before(1003)+1000 {
			t.Violate("slots-before-next-epoch:genesis-slot-added", "SlotsBeforeNextEpoch(1003) = %d with genesis slot 1000 and 8 slots per epoch", got)
		}
		if got := uint64(tp.SlotsSinceEpochStart(1003)); got == cl.since(1003)+1000 {
			t.Violate("slots-since-epoch-start:genesis-slot-added", "SlotsSinceEpochStart(1003) = %d with genesis slot 1000 and 8 slots per epoch", got)
		}
	})

	c.Run("algebra", c.N(300000, 8000000), func(t *Case) {
		r := t.R
		var cl refClock
		switch r.Intn(4) {
		case 0:
			w := pickWorld(r)
			cl = clockOf(w.PP)
		default:
			cl.genesisSlot = uint64([]uint32{0, 1, 7, 65898, uint32(r.Intn(1 << 20)), 1 << 31, r.Uint32() >> 1}[r.Intn(7)])
			cl.genesisUnix = []int64{0, 1, 1_700_000_000, int64(r.Uint32()), -int64(r.Intn(1 << 30)), int64(r.Intn(1 << 33))}[r.Intn(6)]
			cl.dur = []int64{1, 2, 10, 20, 255, 1 + int64(r.Intn(255))}[r.Intn(6)]
			cl.exp = uint([]int{0, 1, 3, 5, 8, 13, r.Intn(24), 20}[r.Intn(8)])
		}
		tp := iotago.NewTimeProvider(iotago.SlotIndex(cl.genesisSlot), cl.genesisUnix, cl.dur, uint8(cl.exp))
		t.Note("genesisSlot=%d genesisTime=%d duration=%d exponent=%d", cl.genesisSlot, cl.genesisUnix, cl.dur, cl.exp)
		per := uint64(1) << cl.exp
		// the last slot such that its epoch and the next end within uint32, and its time within Go's durations
		maxRel := uint64(math.MaxUint32) - 4 - cl.genesisSlot
		if lim := uint64(9_000_000_000) / uint64(cl.dur); lim < maxRel {
			maxRel = lim
		}
		maxEpoch := (maxRel+1)/per - 1
		if maxRel+1 < 2*per {
			t.Eval("")

			return
		}
		maxRel = maxEpoch * per // slots up to the start of the last epoch
		if maxRel == 0 {
			return
		}

		// slots
		var rel int64
		pos := r.Intn(7)
		switch pos {
		case 0:
			rel = int64(r.Intn(4)) - 1
		case 1:
			rel = int64(per)*r.Int63n(int64(maxEpoch)+1) + int64(r.Intn(3)) - 1
		case 2:
			rel = r.Int63n(int64(maxRel))
		case 3:
			rel = int64(maxRel) - int64(r.Intn(3))
		case 4:
			rel = -1 - r.Int63n(int64(cl.genesisSlot)+1)
		case 5:
			rel = int64(per) - 1 + int64(r.Intn(3))
		default:
			rel = r.Int63n(1 << uint(1+r.Intn(30)))
		}
		if rel > int64(maxRel) {
			rel = int64(maxRel)
		}
		if int64(cl.genesisSlot)+rel < 0 {
			rel = 0
		}
		s := uint64(int64(cl.genesisSlot) + rel)
		slot := iotago.SlotIndex(s)
		t.Note("slot %d", s)
		posn := "in"
		switch {
		case s < cl.genesisSlot:
			posn = "pre"
		case s == cl.genesisSlot:
			posn = "gen"
		case cl.since(s) == 0:
			posn = "first"
		case cl.before(s) == 1:
			posn = "last"
		}
		key := func(f string) {
			t.Eval(join("slot", f, posn, itoa(int(cl.exp)), itoa(int(min(cl.genesisSlot, 2))), itoa(int(cl.dur))))
		}

		e := cl.epoch(s)
		t.Check(uint64(tp.EpochFromSlot(slot)) == e, "epoch-from-slot", "EpochFromSlot = %d, want %d", tp.EpochFromSlot(slot), e)
		t.Check(uint64(tp.EpochStart(iotago.EpochIndex(e))) == cl.start(e), "epoch-start", "EpochStart(%d) = %d, want %d", e, tp.EpochStart(iotago.EpochIndex(e)), cl.start(e))
		t.Check(uint64(tp.EpochEnd(iotago.EpochIndex(e))) == cl.end(e), "epoch-end", "EpochEnd(%d) = %d, want %d", e, tp.EpochEnd(iotago.EpochIndex(e)), cl.end(e))
		key("epoch")
		if s >= cl.genesisSlot {
			a, z := tp.EpochStart(tp.EpochFromSlot(slot)), tp.EpochEnd(tp.EpochFromSlot(slot))
			t.Check(a <= slot && slot <= z, "epoch-bounds", "slot %d outside [%d,%d] of its epoch", slot, a, z)
			t.Check(tp.EpochStart(tp.EpochFromSlot(slot)+1) == z+1, "epoch-adjacent", "epoch ends at %d but the next starts at %d", z, tp.EpochStart(tp.EpochFromSlot(slot)+1))
			t.Check(tp.EpochFromSlot(a) == tp.EpochFromSlot(z), "epoch-inverse", "start and end of an epoch belong to different epochs")
		}
		g := cl.genesisSlot
		if got, want := uint64(tp.SlotsBeforeNextEpoch(slot)), cl.before(s); got != want && got != uint64(uint32(want+g)) {
			t.Violate("slots-before-next-epoch", "SlotsBeforeNextEpoch = %d, want %d", got, want)
		}
		if got, want := uint64(tp.SlotsSinceEpochStart(slot)), cl.since(s); got != want && got != uint64(uint32(want+g)) {
			t.Violate("slots-since-epoch-start", "SlotsSinceEpochStart = %d, want %d", got, want)
		}
		key("distance")

		// times
		st, en := tp.SlotStartTime(slot), tp.SlotEndTime(slot)
		if s <= cl.genesisSlot {
			want := time.Unix(cl.genesisUnix, 0).Add(-1)
			t.Check(st.Equal(want) && en.Equal(want), "genesis-slot-times", "slot times before the genesis are %v / %v, want %v", st, en, want)
			t.Check(uint64(tp.SlotFromTime(st)) == cl.genesisSlot, "genesis-slot-inverse", "SlotFromTime(SlotStartTime(%d)) = %d", s, tp.SlotFromTime(st))
		} else {
			ws := time.Unix(cl.genesisUnix+(rel-1)*cl.dur, 0)
			t.Check(st.Equal(ws), "slot-start-time", "SlotStartTime = %v, want %v", st.Unix(), ws.Unix())
			t.Check(en.Equal(ws.Add(time.Duration(cl.dur)*time.Second-1)), "slot-end-time", "SlotEndTime = %v, want %v", en, ws.Add(time.Duration(cl.dur)*time.Second-1))
			for _, q := range []struct {
				at   time.Time
				want uint64
			}{{st, s}, {en, s}, {en.Add(1), s + 1}, {st.Add(-1), s - 1}, {st.Add(time.Duration(r.Int63n(cl.dur * 1e9))), s}} {
				t.Check(uint64(tp.SlotFromTime(q.at)) == q.want, "slot-time-inverse", "SlotFromTime(%v) = %d, want %d", q.at, tp.SlotFromTime(q.at), q.want)
			}
			t.Check(tp.SlotStartTime(slot+1).Equal(en.Add(1)), "slots-adjacent", "slot %d ends %v but the next starts %v", s, en, tp.SlotStartTime(slot+1))
		}
		key("times")
		at := time.Unix(cl.genesisUnix, 0)
		switch r.Intn(4) {
		case 0:
			at = at.Add(time.Duration(r.Int63n(5) - 2))
		case 1:
			at = at.Add(-time.Duration(r.Int63n(1 << 60)))
		default:
			at = at.Add(time.Duration(r.Int63n(int64(maxRel)) * int64(time.Second) % int64(8_000_000_000*time.Second)))
			at = at.Add(time.Duration(r.Int63n(int64(2 * time.Second))))
		}
		if r.Intn(2) == 0 {
			at = at.In(time.FixedZone("x", r.Intn(7200)-3600))
		}
		if want := cl.slotAt(at); want <= math.MaxUint32 {
			t.Check(uint64(tp.SlotFromTime(at)) == want, "slot-from-time", "SlotFromTime(%v) = %d, want %d", at, tp.SlotFromTime(at), want)
			t.Eval(join("time", itoa(int(cl.exp)), itoa(int(cl.dur))))
		}
		// configuration
		t.Check(uint64(tp.GenesisSlot()) == g && tp.GenesisUnixTime() == cl.genesisUnix && tp.GenesisTime().Equal(time.Unix(cl.genesisUnix, 0)) &&
			tp.SlotDurationSeconds() == cl.dur && uint64(tp.EpochDurationSlots()) == per && tp.EpochDurationSeconds() == int64(per)*cl.dur && tp.SlotsPerEpochExponent() == uint8(cl.exp),
			"config", "getters do not report the configuration")
		if t.Index < 4 {
			t.Sample(map[string]any{"genesisSlot": cl.genesisSlot, "genesisTime": cl.genesisUnix, "duration": cl.dur, "exponent": cl.exp, "slot": s, "epoch": e})
		}
	})

	c.Run("current", c.N(300, 3000), func(t *Case) {
		r := t.R
		cl := refClock{uint64(r.Intn(1000)), time.Now().Unix() - r.Int63n(1e8), 1 + r.Int63n(20), uint(r.Intn(14))}
		tp := iotago.NewTimeProvider(iotago.SlotIndex(cl.genesisSlot), cl.genesisUnix, cl.dur, uint8(cl.exp))
		lo := cl.slotAt(time.Now())
		got, ge := uint64(tp.CurrentSlot()), uint64(tp.CurrentEpoch())
		hi := cl.slotAt(time.Now())
		t.Check(lo <= got && got <= hi, "current-slot", "CurrentSlot = %d, want %d..%d", got, lo, hi)
		t.Check(cl.epoch(lo) <= ge && ge <= cl.epoch(hi), "current-epoch", "CurrentEpoch = %d, want %d..%d", ge, cl.epoch(lo), cl.epoch(hi))
		t.Eval(join("current", itoa(int(cl.dur)), itoa(int(cl.exp))))
	})

	// the time provider of an API follows its protocol parameters
	c.Run("api", c.N(500, 20000), func(t *Case) {
		r := t.R
		w := pickWorld(r)
		cl := clockOf(w.PP)
		tp := w.API.TimeProvider()
		s := cl.genesisSlot + uint64(r.Intn(1<<22))
		t.Check(uint64(tp.EpochFromSlot(iotago.SlotIndex(s))) == cl.epoch(s) && tp.SlotStartTime(iotago.SlotIndex(s+1)).Unix() == cl.genesisUnix+int64(s-cl.genesisSlot)*cl.dur,
			"api-time-provider", "the API's time provider disagrees with the protocol parameters")
		t.Eval(join("api", w.Name))
	})
}
