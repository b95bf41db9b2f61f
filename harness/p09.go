package main

import (
	"math"
	"math/big"
	"math/rand"
	"sync"

	iotago "github.com/iotaledger/iota.go/v4"
)

func init() { register("P09", p09) }

type manaWorld struct {
	pp    *iotago.V3ProtocolParameters
	api   iotago.API
	mdp   *iotago.ManaDecayProvider
	ref   refMana
	real  bool    // the tables were derived from the annual decay factor
	d     float64 // decay per epoch
	perYr float64
	desc  string
}

var (
	manaWorldsMu sync.Mutex
	manaWorldsC  = map[int]*manaWorld{}
)

// manaWorldAt builds the i-th parameter set, derived by the code under test from randomly chosen rates.
func manaWorldAt(seed int64, i int) *manaWorld {
	manaWorldsMu.Lock()
	defer manaWorldsMu.Unlock()
	if w, is := manaWorldsC[i]; is {
		return w
	}
	r := rand.New(rand.NewSource(mix(seed, "mana-world", i)))
	var w *manaWorld
	for w == nil {
		w = tryManaWorld(r, i)
	}
	manaWorldsC[i] = w

	return w
}

func tryManaWorld(r *rand.Rand, i int) (w *manaWorld) {
	defer func() {
		if recover() != nil { // the sanity checks of the constructor reject the combination
			w = nil
		}
	}()
	genesis := iotago.SlotIndex([]uint32{0, 0, 65898, uint32(r.Intn(1 << 24))}[r.Intn(4)])
	dur := uint8([]int{10, 10, 20, 1 + r.Intn(60)}[r.Intn(4)])
	exp := uint8([]int{13, 10, 8, 5, 4 + r.Intn(12)}[r.Intn(5)])
	genRate, genExp := uint8(1), uint8(17)
	sumExp := uint8(21)
	annual := uint8(70)
	supply := iotago.BaseToken(1813620509061365)
	bits := uint8(63)
	if i > 0 {
		genRate = uint8(1 + r.Intn(6))
		genExp = uint8(int(exp) + 4 + r.Intn(14))
		annual = uint8(1 + r.Intn(99))
		sumExp = uint8(r.Intn(25))
		supply = iotago.BaseToken(1 + r.Int63n(1<<uint(20+r.Intn(32))))
	} else {
		genesis, dur, exp = 0, 10, 13
	}
	delta := math.Exp2(float64(exp)) * float64(dur) / (365 * 86400)
	d := math.Pow(float64(annual)/100, delta)
	// the sum of the decay has to fit into 32 bits together with the generation rate, or the parameters are not valid
	for float64(genRate)*d/(1-d)*math.Exp2(float64(sumExp)) >= math.MaxUint32 {
		if sumExp == 0 {
			return nil
		}
		sumExp--
	}
	if 1/delta < 1 || 1/delta > 40000 {
		return nil
	}
	minCA, maxCA, near := iotago.SlotIndex(2), iotago.SlotIndex(4), iotago.SlotIndex(9)
	pp := iotago.NewV3SnapshotProtocolParameters(
		iotago.WithTimeProviderOptions(genesis, 1_700_000_000, dur, exp),
		iotago.WithLivenessOptions(0, 1, minCA, maxCA, near),
		iotago.WithCongestionControlOptions(1, 1, 1, 1, 1, 1, 1000, 100),
		iotago.WithRewardsOptions(8, uint8(r.Intn(12)), 2, 384),
		iotago.WithSupplyOptions(supply, bits, genRate, genExp, 32, sumExp, annual),
	)
	api := iotago.V3API(pp)

	return &manaWorld{pp: pp, api: api, mdp: api.ManaDecayProvider(), ref: manaOf(pp), real: true, d: d, perYr: 1 / delta}
}

func bfits(v *big.Int, bits int) bool { return v.Sign() >= 0 && v.BitLen() <= bits }

func p09(c *Ctx) {
	c.Rule("mana decay providers over derived and hand-made parameter sets (decay tables of length 0, 1, short and one year; several generation rates, exponents, epoch lengths, genesis slots) x amounts (0, small, supply, random bit lengths) x creation/target slots in the same, the next and far apart epochs, on and around epoch and table boundaries; each result compared with exact big-integer TIP-45 arithmetic, and for derived parameter sets with the real-valued decay; distinct = (parameter set, function, epoch difference class, amount bits).")
	c.Assume("Parameter sets and amounts for which the protocol's fixed-point intermediate values fit their documented widths (factors of at most 32 bits, results of at most 64 bits).")
	nw := 24
	if c.Thorough() {
		nw = 150
	}

	amountOf := func(r *rand.Rand, max uint64) uint64 {
		switch r.Intn(5) {
		case 0:
			return min(max, uint64(r.Intn(5)))
		case 1:
			return max
		case 2:
			return max - uint64(r.Int63n(int64(min(max, 1000)+1)))
		case 3:
			return uint64(r.Int63()) >> uint(r.Intn(63)) % (max + 1)
		default:
			return uint64(r.Int63n(int64(max) + 1))
		}
	}
	cls := func(n uint64) string {
		switch {
		case n <= 3:
			return itoa(int(n))
		case n < 1000:
			return "x"
		default:
			return "far"
		}
	}

	c.Run("generate", c.N(250000, 5000000), func(t *Case) {
		r := t.R
		w := manaWorldAt(t.Seed, r.Intn(nw))
		cl := w.ref.clock
		amount := amountOf(r, uint64(w.pp.TokenSupply()))
		per := uint64(1) << cl.exp
		created := cl.genesisSlot + uint64(r.Intn(1<<uint(2+r.Intn(22))))
		var target uint64
		n := uint64(len(w.ref.mp.DecayFactors))
		switch r.Intn(7) {
		case 0:
			target = created + uint64(r.Intn(4))
		case 1:
			target = cl.end(cl.epoch(created)) + uint64(r.Intn(3)) - 1
		case 2:
			target = cl.start(cl.epoch(created)+1+uint64(r.Intn(4))) + uint64(r.Intn(3)) - 1
		case 3:
			target = cl.start(cl.epoch(created)+n*uint64(1+r.Intn(2))+uint64(r.Intn(3))) - 1 + uint64(r.Intn(int(per)+1))
		case 4:
			target = created - uint64(r.Intn(3))
		default:
			target = created + uint64(r.Intn(1<<uint(2+r.Intn(24))))
		}
		if r.Intn(6) == 0 {
			created = cl.start(cl.epoch(created)) - uint64(r.Intn(2))*uint64(min(created-cl.genesisSlot, 1))
		}
		if created < cl.genesisSlot {
			created = cl.genesisSlot
		}
		if cl.end(cl.epoch(target)+1) > math.MaxUint32 || target < cl.genesisSlot {
			t.Eval("")

			return
		}
		t.Note("amount %d slots %d -> %d, genesis %d exp %d dur %d rate %d/2^%d tables %d annual %d sum %d/2^%d", amount, created, target, cl.genesisSlot, cl.exp, cl.dur, w.ref.mp.GenerationRate, w.ref.mp.GenerationRateExponent, n, w.ref.mp.AnnualDecayFactorPercentage, w.ref.mp.DecayFactorEpochsSum, w.ref.mp.DecayFactorEpochsSumExponent)
		got, err := w.mdp.GenerateManaAndDecayBySlots(iotago.BaseToken(amount), iotago.SlotIndex(created), iotago.SlotIndex(target))
		want := w.ref.generateDecay(bi(amount), created, target)
		diff := cls(cl.epoch(target) - cl.epoch(created))
		if want == nil {
			t.Check(err != nil, "generate:target-before-creation", "no error for a target slot before the creation slot")
			t.Eval(join("gen", "err"))

			return
		}
		t.Eval(join("gen", itoa(t.Index%nw), diff, itoa(bi(amount).BitLen())))
		t.Count("generate epochs +" + diff)
		if want.Sign() < 0 {
			t.Check(err != nil, "generate:negative", "negative amount %v returned as %d", want, got)

			return
		}
		if !bfits(want, 64) {
			t.Check(err != nil, "generate:overflow", "%d returned for %v", got, want)

			return
		}
		if err != nil {
			t.Violate("generate:error", "error %v, want %v", err, want)

			return
		}
		t.Check(want.Cmp(bi(uint64(got))) == 0, "generate:value", "generated %d mana, want %v", got, want)

		// the real-valued generation: every slot's mana decays with the epochs between
		if w.real && len(w.ref.mp.DecayFactors) > 0 && created > cl.genesisSlot {
			rate := float64(w.ref.mp.GenerationRate) * math.Exp2(-float64(w.ref.mp.GenerationRateExponent))
			de := float64(cl.epoch(target) - cl.epoch(created))
			f := float64(target - created)
			if de >= 1 {
				f = float64(cl.before(created))*math.Pow(w.d, de) + float64(cl.since(target))
				if de >= 2 {
					f += float64(per) * (w.d - math.Pow(w.d, de)) / (1 - w.d)
				}
			}
			exact := float64(amount) * rate * f
			// the fixed-point tables have 32 bits (decay) and sumExp bits (sum); every multiplication truncates
			relTol := 1e-6 + 2/math.Max(1, float64(w.ref.mp.DecayFactorEpochsSum)) + de/float64(len(w.ref.mp.DecayFactors))*1e-8
			tol := relTol*exact + 4 + de/float64(len(w.ref.mp.DecayFactors)) + float64(amount)*rate*float64(per)*w.d/(1-w.d)*1e-9
			if de >= 2 {
				tol += float64(amount) * rate * float64(per) / math.Exp2(float64(w.ref.mp.DecayFactorEpochsSumExponent)) // truncation of the sum
			}
			t.Check(math.Abs(float64(got)-exact) <= tol, "generate:real", "generated %d mana, the real-valued amount is %.3f ± %.3f", got, exact, tol)
			t.Count("compared with the real-valued model")
		}
		// more tokens never generate less, and parts never generate more than the whole (up to the truncation of each step)
		part := amountOf(r, amount)
		g1, e1 := w.mdp.GenerateManaAndDecayBySlots(iotago.BaseToken(part), iotago.SlotIndex(created), iotago.SlotIndex(target))
		g2, e2 := w.mdp.GenerateManaAndDecayBySlots(iotago.BaseToken(amount-part), iotago.SlotIndex(created), iotago.SlotIndex(target))
		if e1 == nil && e2 == nil {
			slack := uint64(6) + 3*(cl.epoch(target)-cl.epoch(created))/uint64(max(1, len(w.ref.mp.DecayFactors)))
			t.Check(uint64(g1)+uint64(g2) <= uint64(got)+slack, "generate:superadditive", "%d tokens generate %d, but split into %d and %d they generate %d and %d", amount, got, part, amount-part, g1, g2)
		}
		if t.Index < 4 {
			t.Sample(map[string]any{"amount": amount, "created": created, "target": target, "mana": uint64(got)})
		}
	})

	// epochs and rates far from those of the network
	c.Run("generate-wide", c.N(60000, 2000000), func(t *Case) {
		r := t.R
		exp := uint(5 + r.Intn(25))
		cl := refClock{uint64([]uint32{0, 65898, ru32(r) >> 4}[r.Intn(3)]), 1_700_000_000, 10, exp}
		mp := &iotago.ManaParameters{BitsCount: 63, GenerationRate: []uint8{1, 255, uint8(1 + r.Intn(255))}[r.Intn(3)]}
		mp.GenerationRateExponent = uint8(min(int(exp)+r.Intn(24), 63))
		for f, i := uint64(math.MaxUint32), r.Intn(6); i > 0; i-- {
			f = f * uint64(r.Intn(64)+1) / 64
			mp.DecayFactors = append(mp.DecayFactors, uint32(f))
		}
		mp.DecayFactorsExponent = 32
		mp.DecayFactorEpochsSum = ru32(r) >> uint(r.Intn(32))
		mp.DecayFactorEpochsSumExponent = uint8(r.Intn(30))
		ref := refMana{cl, mp}
		tp := iotago.NewTimeProvider(iotago.SlotIndex(cl.genesisSlot), cl.genesisUnix, cl.dur, uint8(exp))
		mdp := iotago.NewManaDecayProvider(tp, uint8(exp), mp)
		created := cl.genesisSlot + uint64(ru32(r)>>uint(2+r.Intn(30)))
		target := created + uint64(ru32(r)>>uint(2+r.Intn(30)))
		if coin(r, 3) {
			target = cl.end(cl.epoch(created)) + uint64(r.Intn(3)) - 1
		}
		if target < created || cl.end(cl.epoch(target)+1) > math.MaxUint32 {
			return
		}
		amount := ru64(r) >> uint(1+r.Intn(63))
		n := cl.epoch(target) - cl.epoch(created)
		t.Note("amount %d slots %d -> %d, genesis %d exp %d rate %d/2^%d table %v sum %d/2^%d", amount, created, target, cl.genesisSlot, exp, mp.GenerationRate, mp.GenerationRateExponent, mp.DecayFactors, mp.DecayFactorEpochsSum, mp.DecayFactorEpochsSumExponent)
		got, err := mdp.GenerateManaAndDecayBySlots(iotago.BaseToken(amount), iotago.SlotIndex(created), iotago.SlotIndex(target))
		want := ref.generateDecay(bi(amount), created, target)
		t.Eval(join("wide", itoa(int(exp)), itoa(int(min(n, 3))), itoa(want.BitLen())))
		if want.Sign() < 0 {
			t.Check(err != nil, "generate-wide:negative", "negative amount %v returned as %d", want, got)

			return
		}
		// every part of the sum has to be within the range of mana, and every factor within 32 bits
		fits := bfits(want, 64)
		part := func(factor uint64, v *big.Int) { fits = fits && bfits(v, 64) && factor <= math.MaxUint32 }
		slots := func(n uint64) { part(n*uint64(mp.GenerationRate), ref.generate(bi(amount), n)) }
		if n == 0 {
			slots(target - created)
		} else {
			slots(cl.before(created))
			slots(cl.since(target))
		}
		if n > 1 {
			part(uint64(mp.DecayFactorEpochsSum)*uint64(mp.GenerationRate), shr(mul(mul(bi(amount), uint64(mp.DecayFactorEpochsSum)), uint64(mp.GenerationRate)), int(mp.DecayFactorEpochsSumExponent)+int(mp.GenerationRateExponent)-int(exp)))
		}
		if err != nil {
			t.Count("generate-wide: refused")
			t.Check(!fits, "generate-wide:error", "error %v, want %v", err, want)

			return
		}
		t.Count("generate-wide: epochs +" + itoa(int(min(n, 3))))
		t.Check(want.Cmp(bi(uint64(got))) == 0, "generate-wide:value", "generated %d mana, want %v", got, want)
	})

	c.Run("decay", c.N(250000, 5000000), func(t *Case) {
		r := t.R
		w := manaWorldAt(t.Seed, r.Intn(nw))
		mdp, ref := w.mdp, w.ref
		realTable := true
		if coin(r, 3) {
			// a hand-made table
			mp := *w.ref.mp
			mp.DecayFactors = nil
			for i, n := 0, []int{0, 1, 2, 3, 10}[r.Intn(5)]; i < n; i++ {
				mp.DecayFactors = append(mp.DecayFactors, []uint32{0, 1, math.MaxUint32, r.Uint32(), r.Uint32() | 1<<31}[r.Intn(5)])
			}
			mp.DecayFactorsExponent = uint8([]int{32, 32, 32, 20, 31, 24}[r.Intn(6)])
			ref = refMana{w.ref.clock, &mp}
			mdp = iotago.NewManaDecayProvider(w.api.TimeProvider(), uint8(ref.clock.exp), &mp)
			realTable = false
		}
		n := uint64(len(ref.mp.DecayFactors))
		value := ru64(r) >> uint(r.Intn(64))
		if coin(r, 8) {
			value = []uint64{math.MaxInt64, math.MaxUint64}[r.Intn(2)]
		}
		from := uint64(r.Intn(1 << uint(r.Intn(12))))
		var diff uint64
		switch r.Intn(5) {
		case 0:
			diff = uint64(r.Intn(4))
		case 1:
			diff = n + uint64(r.Intn(3))
		case 2:
			diff = 2*n + uint64(r.Intn(3))
		case 3:
			diff = uint64(r.Intn(1 << uint(r.Intn(15))))
		default:
			diff = uint64(r.Intn(int(n) + 1))
		}
		t.Note("value %d epochs %d -> %d, table %d/2^%d", value, from, from+diff, n, ref.mp.DecayFactorsExponent)
		got, err := mdp.DecayManaByEpochs(iotago.Mana(value), iotago.EpochIndex(from), iotago.EpochIndex(from+diff))
		// every intermediate value has to fit
		for k, v := diff, bi(value); k > 0 && n > 0; {
			s := min(k, n)
			k -= s
			v = ref.decay(v, s)
			if v.BitLen() > 64 {
				t.Check(err != nil || bi(uint64(got)).Cmp(ref.decay(bi(value), diff)) == 0, "decay:overflow", "decayed to %d, want %v", got, ref.decay(bi(value), diff))
				t.Count("decay beyond 64 bits")
				t.Eval("")

				return
			}
			if v.Sign() == 0 {
				break
			}
		}
		want := ref.decay(bi(value), diff)
		if t.Check(err == nil, "decay:error", "error %v", err) {
			t.Check(want.Cmp(bi(uint64(got))) == 0, "decay:value", "decayed to %d, want %v", got, want)
		}
		t.Eval(join("decay", cls(diff), itoa(int(min(n, 11))), itoa(bi(value).BitLen())))
		if realTable && n > 0 {
			exact := float64(value) * math.Pow(w.d, float64(diff))
			tol := exact*(1e-6) + float64(value)*1e-8*(1+float64(diff)/float64(n)) + 2 + float64(diff)/float64(n)
			t.Check(math.Abs(float64(got)-exact) <= tol, "decay:real", "decayed to %d, the real-valued decay is %.3f", got, exact)
			t.Check(uint64(got) <= value, "decay:grows", "mana grew by decay")
			if diff == 0 {
				t.Check(uint64(got) == value, "decay:none", "mana changed without epochs passing")
			}
		}
		if diff > 0 {
			_, err = mdp.DecayManaByEpochs(iotago.Mana(value), iotago.EpochIndex(from+diff), iotago.EpochIndex(from))
			t.Check(err != nil, "decay:target-before-creation", "no error for a target epoch before the creation epoch")
		}
		// by slots: the epochs of the slots count, wherever inside the epochs they are
		cl := ref.clock
		if cl.end(from+diff) <= math.MaxUint32 {
			s1 := cl.start(from) + uint64(r.Intn(1<<cl.exp))
			s2 := cl.start(from+diff) + uint64(r.Intn(1<<cl.exp))
			if from == 0 && coin(r, 4) {
				s1 = uint64(r.Int63n(int64(cl.genesisSlot) + 1))
			}
			gs, err := mdp.DecayManaBySlots(iotago.Mana(value), iotago.SlotIndex(s1), iotago.SlotIndex(s2))
			if t.Check(err == nil, "decay-slots:error", "error %v for slots %d -> %d", err, s1, s2) {
				t.Check(gs == got, "decay-slots:value", "decay by slots %d -> %d gives %d, by epochs %d", s1, s2, gs, got)
			}
			if diff > 0 {
				_, err = mdp.DecayManaBySlots(iotago.Mana(value), iotago.SlotIndex(s2), iotago.SlotIndex(s1))
				t.Check(err != nil, "decay-slots:target-before-creation", "no error for a target slot in an epoch before the creation")
			}
		}
	})

	c.Run("potential", c.N(80000, 1000000), func(t *Case) {
		r := t.R
		w := manaWorldAt(t.Seed, r.Intn(nw))
		o := genOutput(r)
		min := refMinDeposit(w.pp.StorageScoreParameters(), o)
		switch r.Intn(4) {
		case 0:
			refSetAmount(o, min.Uint64()+uint64(r.Intn(3))-1)
		case 1:
			refSetAmount(o, uint64(r.Int63n(int64(min.Uint64())+1)))
		default:
			refSetAmount(o, min.Uint64()+amountOf(r, uint64(w.pp.TokenSupply())))
		}
		cl := w.ref.clock
		created := cl.genesisSlot + uint64(r.Intn(1<<uint(2+r.Intn(16))))
		target := created + uint64(r.Intn(1<<uint(2+r.Intn(16))))
		want := refPotentialMana(w.pp, o, iotago.SlotIndex(created), iotago.SlotIndex(target))
		got, err := iotago.PotentialMana(w.mdp, w.api.StorageScoreStructure(), o, iotago.SlotIndex(created), iotago.SlotIndex(target))
		t.Eval(join("potential", itoa(int(o.Type())), itoa(want.BitLen())))
		if !bfits(want, 63) {
			return
		}
		if t.Check(err == nil, "potential:error", "error %v", err) {
			t.Check(want.Cmp(bi(uint64(got))) == 0, "potential:value", "potential mana %d, want %v (amount %d, min deposit %v, slots %d -> %d)", got, want, o.BaseTokenAmount(), min, created, target)
		}
	})

	c.Run("target-reward", c.N(20000, 300000), func(t *Case) {
		r := t.R
		w := manaWorldAt(t.Seed, r.Intn(nw))
		rp := w.pp.RewardsParameters()
		var e uint64
		switch r.Intn(4) {
		case 0:
			e = uint64(r.Intn(5))
		case 1:
			e = uint64(rp.BootstrappingDuration) + uint64(r.Intn(3)) - 1
		case 2:
			e = uint64(r.Intn(int(rp.BootstrappingDuration)*2 + 2))
		default:
			e = uint64(r.Uint32())
		}
		want := bi(uint64(rp.FinalTargetRewardsRate))
		if e <= uint64(rp.BootstrappingDuration) {
			want = w.ref.decay(bi(uint64(rp.InitialTargetRewardsRate)), e)
		}
		got, err := rp.TargetReward(iotago.EpochIndex(e), w.api)
		if t.Check(err == nil, "target-reward:error", "error %v", err) {
			t.Check(want.Cmp(bi(uint64(got))) == 0, "target-reward:value", "target reward of epoch %d is %d, want %v", e, got, want)
		}
		t.Eval(join("reward", itoa(t.Index%nw), itoa(int(e%3))))
	})

	c.Run("derived", nw, func(t *Case) {
		w := manaWorldAt(t.Seed, t.Index)
		mp := w.pp.ManaParameters()
		n := len(mp.DecayFactors)
		t.Check(n == min(65535, int(w.perYr+1e-9)) || n == min(65535, int(w.perYr-1e-9)), "derived:length", "the decay table covers %d epochs, a year has %.2f", n, w.perYr)
		for i, f := range mp.DecayFactors {
			want := math.Pow(w.d, float64(i+1)) * math.Exp2(float64(mp.DecayFactorsExponent))
			if !t.Check(math.Abs(float64(f)-want) <= 2+want*1e-9, "derived:factor", "factor of %d epochs is %d, want %.2f", i+1, f, want) {
				break
			}
			// a factor which is rounded up leaves mana that should have decayed
			if slop := want * float64(i+1) * 1e-15; slop < 0.1 && !t.Check(float64(f) <= want+0.1+slop, "derived:factor-rounded-up", "factor of %d epochs is %d, want %.2f rounded down", i+1, f, want) {
				break
			}
			if i > 0 && !t.Check(f <= mp.DecayFactors[i-1], "derived:monotone", "factor of %d epochs is larger than that of %d", i+1, i) {
				break
			}
		}
		want := w.d / (1 - w.d) * math.Exp2(float64(mp.DecayFactorEpochsSumExponent))
		t.Check(math.Abs(float64(mp.DecayFactorEpochsSum)-want) <= 2+want*1e-9, "derived:sum", "sum %d, want %.2f", mp.DecayFactorEpochsSum, want)
		rp := w.pp.RewardsParameters()
		boot := w.perYr / -math.Log(float64(mp.AnnualDecayFactorPercentage)/100)
		t.Check(math.Abs(float64(rp.BootstrappingDuration)-boot) <= 1.01, "derived:bootstrapping", "bootstrapping duration %d, want %.2f", rp.BootstrappingDuration, boot)
		final := shr(mul(mul(bi(uint64(w.pp.TokenSupply())), uint64(rp.RewardToGenerationRatio)), uint64(mp.GenerationRate)), int(mp.GenerationRateExponent)-int(w.pp.SlotsPerEpochExponent()))
		t.Check(final.Cmp(bi(uint64(rp.FinalTargetRewardsRate))) == 0, "derived:final-reward", "final reward %d, want %v", rp.FinalTargetRewardsRate, final)
		initial := float64(rp.FinalTargetRewardsRate) / math.Pow(w.d, float64(rp.BootstrappingDuration))
		t.Check(math.Abs(float64(rp.InitialTargetRewardsRate)-initial) <= 2+initial*1e-9, "derived:initial-reward", "initial reward %d, want %.2f", rp.InitialTargetRewardsRate, initial)
		t.Eval(join("derived", itoa(t.Index)))
	})

	c.Run("mana-cost", c.N(5000, 100000), func(t *Case) {
		r := t.R
		a, b := uint64(r.Uint32())<<uint(r.Intn(33)), uint64(r.Uint32())>>uint(r.Intn(32))
		got, err := iotago.ManaCost(iotago.Mana(a), iotago.WorkScore(b))
		want := mul(bi(a), b)
		t.Eval(join("cost", itoa(want.BitLen())))
		if want.BitLen() > 64 {
			t.Check(err != nil, "mana-cost:overflow", "%d * %d overflows but returned %d", a, b, got)
		} else if t.Check(err == nil, "mana-cost:error", "error %v", err) {
			t.Check(want.Cmp(bi(uint64(got))) == 0, "mana-cost:value", "%d * %d = %d", a, b, got)
		}
	})
}
