package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"

	"github.com/iotaledger/hive.go/runtime/options"
	iotago "github.com/iotaledger/iota.go/v4"
)

// p32Snapshot: parameters for a new network are refused exactly if they contradict themselves.
func p32Snapshot(t *Case) {
	r := t.R
	// a set of parameters which is fine, then up to two of them are moved to their limits
	supply := uint64(1813620509061365)
	bitsCount, genRate, genExp, decExp, sumExp, annual := uint8(63), uint8(1), uint8(17), uint8(32), uint8(21), uint8(70)
	dur, spe := uint8(10), uint8(13)
	ll, lu := uint16(15), uint16(30)
	minCA, maxCA, near := uint32(10), uint32(20), uint32(60)
	inc, dec, rate := uint32(400_000_000), uint32(250_000_000), uint32(50_000_000)
	valBlocks, pool, ratio := uint8(10), uint8(11), uint8(2)
	if coin(r, 2) { // other clocks
		dur, spe = uint8(1+r.Intn(60)), uint8(7+r.Intn(9))
		genExp = max(genExp, spe)
		if uint32(lu) >= minCA*uint32(dur) {
			ll, lu = uint16(r.Intn(int(dur))), uint16(minCA*uint32(dur)-1)
			ll = min(ll, lu)
		}
		if rate = uint32(1 + r.Intn(1<<24)); true {
			inc = uint32(r.Int63n(int64(rate)*int64(dur) + 1))
			dec = uint32(r.Int63n(int64(inc) + 1))
		}
	}
	if coin(r, 8) { // more work in a slot than fits into 32 bits
		if dur < 2 {
			dur = 10
		}
		rate = uint32((1<<32)/uint64(dur) + uint64(r.Intn(1<<uint(1+r.Intn(31)))))
		inc, dec = ru32(r), 0
		dec = uint32(r.Int63n(int64(inc) + 1))
	}
	if coin(r, 8) { // committable ages of more seconds than fit into 32 bits
		spe = uint8(26 + r.Intn(6))
		genExp = max(genExp, spe)
		if uint64(dur)<<spe < 1<<33 {
			dur = uint8(128 + r.Intn(127))
		}
		minCA = uint32((1<<32)/uint64(dur) + uint64(r.Intn(3)))
		maxCA, near = minCA+1, minCA+2
		rate = max(rate, 1<<24)
		inc, dec = min(inc, 1<<24), min(dec, 1<<20)
	}
	step := func(v uint64) uint64 { return pickNear(r, satSub(v, 1), v+1) }
	for i := r.Intn(3); i > 0; i-- {
		switch r.Intn(17) {
		case 0:
			ll = uint16(step(uint64(lu)))
		case 1:
			lu = uint16(min(65535, step(uint64(minCA)*uint64(dur))))
			ll = min(ll, lu)
		case 2:
			minCA = uint32(step(uint64(maxCA)))
		case 3:
			maxCA = uint32(step(uint64(near)))
		case 4:
			near = uint32(step(1 << spe))
		case 5:
			inc = uint32(min(1<<32-1, step(uint64(rate)*uint64(dur))))
		case 6:
			dec = uint32(min(1<<32-1, step(uint64(rate)*uint64(dur))))
		case 7:
			dec = uint32(min(1<<32-1, step(uint64(inc))))
		case 8:
			pool = uint8(step(uint64(64 - bits.Len64(supply))))
		case 9:
			valBlocks = uint8(step(32))
		case 10:
			genExp = uint8(step(uint64(spe)))
			supply >>= 25
			pool = min(pool, uint8(64-bits.Len64(supply)))
		case 11: // around the largest supply of mana
			bitsCount = uint8(40 + r.Intn(25))
		case 12:
			genRate = uint8(r.Intn(256))
		case 13:
			supply = 1 + uint64(r.Int63())>>uint(r.Intn(50))
		case 14:
			supply >>= 12
			genRate = uint8(1 + r.Intn(255))
			d := math.Pow(float64(annual)/100, float64(dur)*math.Exp2(float64(spe))/(365*24*3600))
			sumExp = uint8(max(0, math.Floor(32-math.Log2(float64(genRate)*d/(1-d)))+float64(r.Intn(2))))
		case 15:
			annual = uint8(1 + r.Intn(99))
		case 16:
			ratio = uint8(r.Intn(256))
		}
	}
	broken := map[string]bool{}
	undecided := false
	if ll > lu {
		broken["liveness bounds"] = true
	}
	if uint64(lu) >= uint64(minCA)*uint64(dur) {
		broken["liveness upper bound"] = true
	}
	if minCA >= maxCA {
		broken["committable ages"] = true
	}
	if maxCA >= near {
		broken["nearing threshold"] = true
	}
	if 1<<spe <= uint64(near) {
		broken["epoch length"] = true
	}
	if uint64(inc) > uint64(rate)*uint64(dur) {
		broken["increase threshold"] = true
	}
	if uint64(dec) > uint64(rate)*uint64(dur) {
		broken["decrease threshold"] = true
	}
	if dec > inc {
		broken["thresholds"] = true
	}
	if bits.Len64(supply)+int(pool) > 64 {
		broken["pool coefficient"] = true
	}
	if l := math.Log2(float64(supply)); supply > 1<<50 && math.Abs(l-math.Round(l)) < 1e-9 {
		undecided = true // computed with floating point numbers
	}
	if valBlocks > 32 {
		broken["validation blocks"] = true
	}
	if genExp < spe {
		broken["generation exponent"] = true
	}
	p := new(big.Int).Mul(bi(supply), bi(uint64(ratio)))
	if p.Mul(p, bi(uint64(genRate))); p.BitLen() > 64 {
		broken["target reward"] = true
	} else if q := new(big.Int).Mul(bi(supply), bi(uint64(ratio))); q.BitLen() > 64 {
		undecided = true
	}
	years := float64(dur) * math.Exp2(float64(spe)) / (365 * 24 * 3600)
	beta := -math.Log(float64(annual) / 100)
	maxMana := 21 * float64(supply) * float64(genRate) * math.Exp2(float64(spe)-float64(genExp)) / (beta * years)
	limit := math.Exp2(float64(bitsCount))
	switch {
	case math.Abs(maxMana-limit) < limit*1e-9:
		undecided = true
	case maxMana >= limit:
		broken["mana supply"] = true
	}
	d := math.Pow(float64(annual)/100, years)
	sum := d / (1 - d) * math.Exp2(float64(sumExp))
	switch x := sum * float64(genRate); {
	case sum >= 1<<32-4 || math.Abs(x-(1<<32)) < 1e4:
		undecided = true
	case x >= 1<<32:
		broken["decay sum"] = true
	}
	if undecided {
		t.Count("not used")

		return
	}
	var rules []string
	for k := range broken {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	var pp *iotago.V3ProtocolParameters
	refused := guard0(func() {
		pp = iotago.NewV3SnapshotProtocolParameters([]options.Option[iotago.V3ProtocolParameters]{
			iotago.WithSupplyOptions(iotago.BaseToken(supply), bitsCount, genRate, genExp, decExp, sumExp, annual),
			iotago.WithTimeProviderOptions(iotago.SlotIndex(r.Intn(1000)), int64(ru32(r)), dur, spe),
			iotago.WithLivenessOptions(ll, lu, iotago.SlotIndex(minCA), iotago.SlotIndex(maxCA), iotago.SlotIndex(near)),
			iotago.WithCongestionControlOptions(1, 1, 1, iotago.WorkScore(inc), iotago.WorkScore(dec), iotago.WorkScore(rate), 1000, 100),
			iotago.WithStakingOptions(10, valBlocks, 10),
			iotago.WithRewardsOptions(8, pool, ratio, 384),
		}...)
	})
	t.Note("supply %d, bits %d, generation %d/2^%d, sum exponent %d, annual %d; %ds x 2^%d; liveness %d %d %d %d %d; congestion %d %d %d; blocks %d pool %d ratio %d", supply, bitsCount, genRate, genExp, sumExp, annual, dur, spe, ll, lu, minCA, maxCA, near, inc, dec, rate, valBlocks, pool, ratio)
	t.Eval(join("snapshot", fmt.Sprint(rules), itoa(int(spe)), itoa(int(dur))))
	if len(rules) == 0 {
		t.Count("accepted parameter sets")
		if t.Check(!refused, "snapshot:refused", "a set of parameters without contradiction is refused") {
			t.Check(!guard0(func() { iotago.V3API(pp) }), "snapshot:api", "no API can be made of accepted parameters")
		}

		return
	}
	if len(rules) == 1 {
		t.Count("refused only because of: " + rules[0])
	}
	t.Check(refused, "snapshot:accepted", "a set of parameters is accepted although it contradicts itself: %v", rules)
}
