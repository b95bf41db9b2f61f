package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iotaledger/hive.go/runtime/options"
	iotago "github.com/iotaledger/iota.go/v4"
)

func init() {
	register("P22", p22)
	register("P32", p32)
}

// ---- P22: the epoch based provider against a model, sequentially and linearizably ----

// provModel is the specification of the provider: what it knows after a number of operations.
type provModel struct {
	params    map[iotago.Version]*iotago.V3ProtocolParameters
	future    map[iotago.Version]iotago.Identifier
	vers      []iotago.ProtocolEpochVersion
	latest    iotago.Version
	committed iotago.Version
	slot      uint64
	set       bool // a slot was committed or a version was added while an API existed
	clock     refClock
}

func (m *provModel) clone() *provModel {
	n := *m
	n.params, n.future = map[iotago.Version]*iotago.V3ProtocolParameters{}, map[iotago.Version]iotago.Identifier{}
	for k, v := range m.params {
		n.params[k] = v
	}
	for k, v := range m.future {
		n.future[k] = v
	}
	n.vers = append([]iotago.ProtocolEpochVersion{}, m.vers...)

	return &n
}

func (m *provModel) known(v iotago.Version) (iotago.EpochIndex, bool) {
	for _, x := range m.vers {
		if x.Version == v {
			return x.StartEpoch, true
		}
	}

	return 0, false
}

// versionAt returns the version which is in force in an epoch.
func (m *provModel) versionAt(epoch uint64) (iotago.Version, bool) {
	var best iotago.Version
	found := false
	for _, x := range m.vers {
		if uint64(x.StartEpoch) <= epoch && (!found || x.Version > best) {
			best, found = x.Version, true
		}
	}

	return best, found
}

func (m *provModel) addParams(p *iotago.V3ProtocolParameters) {
	m.params[p.Version()] = p
	delete(m.future, p.Version())
	if p.Version() > m.latest {
		m.latest = p.Version()
	}
}

func (m *provModel) addVersion(v iotago.Version, epoch iotago.EpochIndex) {
	if _, is := m.known(v); !is {
		m.vers = append(m.vers, iotago.ProtocolEpochVersion{Version: v, StartEpoch: epoch})
		sort.Slice(m.vers, func(i, j int) bool { return m.vers[i].Version < m.vers[j].Version })
	}
	m.update()
}

func (m *provModel) update() {
	if v, ok := m.versionAt(m.clock.epoch(m.slot)); ok && m.latest != 0 {
		if !m.set || v > m.committed {
			m.committed, m.set = v, true
		}
	}
}

// describe names an API or parameters by version and content.
func descParams(p iotago.ProtocolParameters) string {
	if p == nil {
		return "none"
	}
	h, err := p.Hash()
	if err != nil {
		return "error " + err.Error()
	}

	return fmt.Sprintf("v%d %x", p.Version(), h[:6])
}

func descAPI(a iotago.API) string {
	if a == nil {
		return "none"
	}
	if a.Version() != a.ProtocolParameters().Version() {
		return "API and its parameters disagree about the version"
	}

	return descParams(a.ProtocolParameters())
}

// refDesc is what descParams has to be, from the reference encoding.
func refDesc(p *iotago.V3ProtocolParameters) string {
	if p == nil {
		return "none"
	}
	h := blake(refParams(p))

	return fmt.Sprintf("v%d %x", p.Version(), h[:6])
}

// provQuery is a question to the provider with the model's answer. "*" means undefined.
type provQuery struct {
	name string
	ask  func(p *iotago.EpochBasedProvider) string
	want func(m *provModel, desc map[*iotago.V3ProtocolParameters]string) string
}

func provQueries(r *rand.Rand, clock refClock, pp iotago.ProtocolParameters, starts []iotago.EpochIndex) (qs []provQuery) {
	type D = map[*iotago.V3ProtocolParameters]string
	add := func(name string, ask func(p *iotago.EpochBasedProvider) string, want func(m *provModel, d D) string) {
		qs = append(qs, provQuery{name, ask, want})
	}
	atEpoch := func(m *provModel, d D, e uint64) string {
		v, ok := m.versionAt(e)
		if !ok || m.params[v] == nil {
			return "*"
		}

		return d[m.params[v]]
	}
	for v := iotago.Version(2); v <= 8; v++ {
		v := v
		add("APIForVersion", func(p *iotago.EpochBasedProvider) string {
			a, err := p.APIForVersion(v)
			if err != nil {
				return "none"
			}

			return descAPI(a)
		}, func(m *provModel, d D) string { return d[m.params[v]] })
		add("ProtocolParameters", func(p *iotago.EpochBasedProvider) string { return descParams(p.ProtocolParameters(v)) },
			func(m *provModel, d D) string { return d[m.params[v]] })
		add("ProtocolParametersHash", func(p *iotago.EpochBasedProvider) string {
			h := p.ProtocolParametersHash(v)

			return h.ToHex()
		}, func(m *provModel, d D) string {
			h := m.future[v]
			if m.params[v] != nil {
				h = blake(refParams(m.params[v]))
			}

			return fmt.Sprintf("0x%x", h[:])
		})
		add("EpochForVersion", func(p *iotago.EpochBasedProvider) string {
			e, ok := p.EpochForVersion(v)

			return fmt.Sprint(e, ok)
		}, func(m *provModel, d D) string {
			e, ok := m.known(v)

			return fmt.Sprint(e, ok)
		})
	}
	epochs := []uint64{0, 1, uint64(r.Intn(500)), 1 << 20}
	for _, s := range starts {
		epochs = append(epochs, uint64(s), uint64(s)+1)
		if s > 0 {
			epochs = append(epochs, uint64(s)-1)
		}
	}
	for _, e := range epochs {
		e := e
		add("APIForEpoch", func(p *iotago.EpochBasedProvider) string { return descAPI(p.APIForEpoch(iotago.EpochIndex(e))) },
			func(m *provModel, d D) string { return atEpoch(m, d, e) })
		slot := clock.start(e) + uint64(r.Int63n(int64(uint64(1)<<clock.exp)))
		switch r.Intn(4) {
		case 0:
			slot = clock.start(e)
		case 1:
			slot = clock.end(e)
		case 2:
			if e == 0 && clock.genesisSlot > 0 {
				slot = uint64(r.Int63n(int64(clock.genesisSlot)))
			}
		}
		if slot >= 1<<32 {
			continue
		}
		se := clock.epoch(slot)
		add("APIForSlot", func(p *iotago.EpochBasedProvider) string { return descAPI(p.APIForSlot(iotago.SlotIndex(slot))) },
			func(m *provModel, d D) string { return atEpoch(m, d, se) })
		add("VersionForSlot", func(p *iotago.EpochBasedProvider) string {
			return fmt.Sprint(p.VersionForSlot(iotago.SlotIndex(slot)))
		}, func(m *provModel, d D) string {
			if m.latest == 0 {
				return "*"
			}
			v, ok := m.versionAt(se)
			if !ok {
				return "*"
			}

			return fmt.Sprint(v)
		})
		tm := time.Unix(pp.GenesisUnixTimestamp(), 0).Add(time.Duration(r.Int63n(int64(time.Hour))))
		if slot >= clock.genesisSlot && slot-clock.genesisSlot < 1<<27 {
			tm = time.Unix(pp.GenesisUnixTimestamp()+int64(slot-clock.genesisSlot)*int64(pp.SlotDurationInSeconds()), int64(r.Intn(1e9)))
		}
		te := clock.epoch(clock.slotAt(tm))
		add("APIForTime", func(p *iotago.EpochBasedProvider) string { return descAPI(p.APIForTime(tm)) },
			func(m *provModel, d D) string { return atEpoch(m, d, te) })
	}
	add("LatestAPI", func(p *iotago.EpochBasedProvider) string { return descAPI(p.LatestAPI()) },
		func(m *provModel, d D) string { return d[m.params[m.latest]] })
	add("CommittedAPI", func(p *iotago.EpochBasedProvider) string { return descAPI(p.CommittedAPI()) },
		func(m *provModel, d D) string {
			if !m.set {
				return "*"
			}

			return d[m.params[m.committed]]
		})
	add("ProtocolEpochVersions", func(p *iotago.EpochBasedProvider) string {
		l := p.ProtocolEpochVersions()
		s := fmt.Sprint(versList(l))
		for i := range l { // the caller owns the list
			l[i].Version, l[i].StartEpoch = 99, 99
		}

		return s
	}, func(m *provModel, d D) string { return fmt.Sprint(versList(m.vers)) })
	add("VersionsAndProtocolParametersHash", func(p *iotago.EpochBasedProvider) string {
		h, err := p.VersionsAndProtocolParametersHash()
		if err != nil {
			return "error"
		}

		return h.ToHex()
	}, func(m *provModel, d D) string {
		var b []byte
		for _, v := range m.vers {
			b = append(b, byte(v.Version))
			b = binary.LittleEndian.AppendUint32(b, uint32(v.StartEpoch))
			h, is := m.future[v.Version]
			if m.params[v.Version] != nil {
				h, is = blake(refParams(m.params[v.Version])), true
			}
			if !is {
				return "error"
			}
			b = append(b, h[:]...)
		}

		return fmt.Sprintf("0x%x", blake(b))
	})

	return qs
}

func versList(l []iotago.ProtocolEpochVersion) (s []string) {
	for _, v := range l {
		s = append(s, fmt.Sprintf("%d@%d", v.Version, v.StartEpoch))
	}

	return s
}

type provOp struct {
	name string
	do   func(p *iotago.EpochBasedProvider)
	subs []func(m *provModel) // the atomic steps it consists of
}

// provScene is a history of operations of one provider.
type provScene struct {
	ops    []provOp
	desc   map[*iotago.V3ProtocolParameters]string
	clock  refClock
	starts []iotago.EpochIndex
	pp     *iotago.V3ProtocolParameters
}

func newProvider() *iotago.EpochBasedProvider {
	var apis sync.Map // building an API is slow

	return iotago.NewEpochBasedProvider(iotago.WithAPIForMissingVersionCallback(func(pp iotago.ProtocolParameters) (iotago.API, error) {
		if a, is := apis.Load(pp); is {
			return a.(iotago.API), nil
		}
		a := iotago.V3API(pp)
		apis.Store(pp, a)

		return a, nil
	}))
}

func provParams(r *rand.Rand, w *World, version iotago.Version) *iotago.V3ProtocolParameters {
	pp := options.Apply(new(iotago.V3ProtocolParameters), []options.Option[iotago.V3ProtocolParameters]{
		iotago.WithVersion(version),
		iotago.WithNetworkOptions(rascii(r, 1+r.Intn(20)), iotago.PrefixTestnet),
		iotago.WithStorageOptions(iotago.BaseToken(1+r.Intn(500)), 1, 10, 100, 100, 100),
		iotago.WithWorkScoreOptions(1, 100, 20, 20, 20, 20, 100, 100, 100, 200),
		iotago.WithTimeProviderOptions(w.PP.GenesisSlot(), w.PP.GenesisUnixTimestamp(), w.PP.SlotDurationInSeconds(), w.PP.SlotsPerEpochExponent()),
		iotago.WithLivenessOptions(10, 15, iotago.SlotIndex(4+r.Intn(9)), 24, 60),
		iotago.WithSupplyOptions(1813620509061365, 63, 1, 17, 32, 21, 70),
		iotago.WithTargetCommitteeSize(uint8(r.Intn(256))),
		iotago.WithChainSwitchingThreshold(uint8(r.Intn(256))),
	})
	pp.ManaParameters().DecayFactors = []uint32{uint32(1<<32 - 1), 1 << 31}

	return pp
}

func genProvScene(r *rand.Rand, w *World, n int) *provScene {
	sc := &provScene{desc: map[*iotago.V3ProtocolParameters]string{nil: "none"}, clock: clockOf(w.PP)}
	m := &provModel{params: map[iotago.Version]*iotago.V3ProtocolParameters{}, future: map[iotago.Version]iotago.Identifier{}, clock: sc.clock}
	apply := func(op provOp) {
		for _, s := range op.subs {
			s(m)
		}
		sc.ops = append(sc.ops, op)
	}
	mk := func(v iotago.Version) *iotago.V3ProtocolParameters {
		p := provParams(r, w, v)
		sc.desc[p] = refDesc(p)

		return p
	}
	atEpoch := func(p *iotago.V3ProtocolParameters, e iotago.EpochIndex) provOp {
		return provOp{fmt.Sprintf("AddProtocolParametersAtEpoch(%d, %d)", p.Version(), e), func(x *iotago.EpochBasedProvider) { x.AddProtocolParametersAtEpoch(p, e) },
			[]func(m *provModel){func(m *provModel) { m.addParams(p) }, func(m *provModel) { m.addVersion(p.Version(), e) }}}
	}
	addParams := func(p *iotago.V3ProtocolParameters) provOp {
		return provOp{fmt.Sprintf("AddProtocolParameters(%d)", p.Version()), func(x *iotago.EpochBasedProvider) { x.AddProtocolParameters(p) },
			[]func(m *provModel){func(m *provModel) { m.addParams(p) }}}
	}
	addVersion := func(v iotago.Version, e iotago.EpochIndex) provOp {
		return provOp{fmt.Sprintf("AddVersion(%d, %d)", v, e), func(x *iotago.EpochBasedProvider) { x.AddVersion(v, e) },
			[]func(m *provModel){func(m *provModel) { m.addVersion(v, e) }}}
	}
	sc.pp = mk(3)
	apply(atEpoch(sc.pp, 0))
	sc.starts = []iotago.EpochIndex{0}
	next, epoch := iotago.Version(4), iotago.EpochIndex(0)
	committedEpoch := uint64(0)
	for len(sc.ops) < n {
		newStart := func(late bool) iotago.EpochIndex {
			lo := epoch + 1
			if uint64(lo) <= committedEpoch && !late {
				lo = iotago.EpochIndex(committedEpoch) + 1
			}
			epoch = lo + iotago.EpochIndex(r.Intn(4)*r.Intn(10))
			if late && uint64(lo) <= committedEpoch {
				epoch = lo + iotago.EpochIndex(r.Intn(int(min(committedEpoch-uint64(lo), 100))+1))
			}
			sc.starts = append(sc.starts, epoch)

			return epoch
		}
		switch k := r.Intn(10); {
		case k == 0 && next <= 7: // the parameters of the next version
			// a node which starts late learns of versions which are already in force
			apply(atEpoch(mk(next), newStart(coin(r, 3))))
			next++
		case k == 1 && next <= 7: // parameters first, the epoch later
			p := mk(next)
			apply(addParams(p))
			if coin(r, 2) {
				apply(provOp{"SetCommittedSlot(same)", func(x *iotago.EpochBasedProvider) { x.SetCommittedSlot(iotago.SlotIndex(m.slot)) }, []func(m *provModel){func(m *provModel) { m.update() }}})
				s := m.slot
				sc.ops[len(sc.ops)-1].do = func(x *iotago.EpochBasedProvider) { x.SetCommittedSlot(iotago.SlotIndex(s)) }
			}
			apply(addVersion(next, newStart(coin(r, 3))))
			next++
		case k == 2 && next <= 7: // announced by hash, the parameters follow before the epoch begins
			p, e, v := mk(next), newStart(false), next
			h := iotago.Identifier(blake(refParams(p)))
			if coin(r, 4) {
				h = r32(r)
			}
			apply(provOp{fmt.Sprintf("AddFutureVersion(%d, %d)", v, e), func(x *iotago.EpochBasedProvider) { x.AddFutureVersion(v, h, e) },
				[]func(m *provModel){func(m *provModel) { // an announced version has not started, the committed version stays
					if _, is := m.known(v); !is {
						m.vers = append(m.vers, iotago.ProtocolEpochVersion{Version: v, StartEpoch: e})
						sort.Slice(m.vers, func(i, j int) bool { return m.vers[i].Version < m.vers[j].Version })
					}
					m.future[v] = h
				}}})
			next++
			if coin(r, 2) {
				apply(addParams(p))
			}
		case k == 3: // a version with a hash gets its parameters
			for v := iotago.Version(4); v < next; v++ {
				if m.params[v] == nil {
					apply(addParams(mk(v)))

					break
				}
			}
		case k == 4: // an epoch for a version which already has one is ignored
			v := iotago.Version(3 + r.Intn(int(next)-3))
			apply(addVersion(v, iotago.EpochIndex(r.Intn(100))))
		case k == 5: // parameters are replaced
			v := iotago.Version(3 + r.Intn(int(next)-3))
			if m.params[v] != nil {
				apply(addParams(mk(v)))
			}
		default: // the committed slot advances, but not into a version without parameters
			s := m.slot + uint64(r.Intn(1<<uint(r.Intn(int(sc.clock.exp)+3))))
			if coin(r, 5) {
				s = m.slot + uint64(1+r.Intn(8))<<sc.clock.exp
			} else if coin(r, 3) {
				e := uint64(sc.starts[r.Intn(len(sc.starts))])
				s = sc.clock.start(e)
				if coin(r, 3) && s > 0 {
					s--
				}
			}
			if s < m.slot {
				if !coin(r, 4) {
					continue
				}
			}
			e := sc.clock.epoch(s)
			if v, ok := m.versionAt(e); !ok || m.params[v] == nil {
				continue
			}
			if e > committedEpoch {
				committedEpoch = e
			}
			apply(provOp{fmt.Sprintf("SetCommittedSlot(%d)", s), func(x *iotago.EpochBasedProvider) { x.SetCommittedSlot(iotago.SlotIndex(s)) },
				[]func(m *provModel){func(m *provModel) { m.slot = s; m.update() }}})
		}
	}

	return sc
}

func (sc *provScene) model() *provModel {
	return &provModel{params: map[iotago.Version]*iotago.V3ProtocolParameters{}, future: map[iotago.Version]iotago.Identifier{}, clock: sc.clock}
}

func (sc *provScene) names() string {
	var s []string
	for _, op := range sc.ops {
		s = append(s, op.name)
	}

	return strings.Join(s, "; ")
}

func askSafe(q provQuery, p *iotago.EpochBasedProvider) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprintf("panic: %v", x)
		}
	}()

	return q.ask(p)
}

func p22(c *Ctx) {
	c.Rule("histories: random operations of an epoch based provider (parameters, versions, announced versions, committed slots), all queries after each operation compared with a model; concurrent: one writer and seven readers, each answer must be the model's answer at some point between call and return; decode: blocks decoded through the provider while it is updated.")
	c.Assume("All versions share the time parameters (the provider resolves slots with the latest API), versions start in increasing epochs after the committed one, and no slot is committed in an epoch whose version has no parameters (a node cannot).")
	c.Run("histories", c.N(250, 10000), func(t *Case) {
		w := pickWorld(t.R)
		sc := genProvScene(t.R, w, 4+t.R.Intn(22))
		t.Note("world %s: %s", w.Name, sc.names())
		qs := provQueries(t.R, sc.clock, sc.pp, sc.starts)
		p, m := newProvider(), sc.model()
		for i, op := range sc.ops {
			op.do(p)
			for _, s := range op.subs {
				s(m)
			}
			for _, q := range qs {
				if i < len(sc.ops)-1 && t.R.Intn(4) != 0 {
					continue
				}
				want := q.want(m, sc.desc)
				if want == "*" {
					t.Count("undefined-queries")

					continue
				}
				got := askSafe(q, p)
				t.Check(got == want, "history:"+q.name, "after %d operations (last %s): %s answered %q, want %q", i+1, op.name, q.name, got, want)
				t.Count("queries")
			}
			t.Eval(join("op", strings.Split(op.name, "(")[0], fmt.Sprint(m.latest, m.committed, len(m.vers), len(m.future))))
		}
		t.Sample(sc.names())
	})
	c.RunSerial("concurrent", c.N(60, 2500), func(t *Case) {
		w := pickWorld(t.R)
		sc := genProvScene(t.R, w, 6+t.R.Intn(20))
		t.Note("world %s: %s", w.Name, sc.names())
		qs := provQueries(t.R, sc.clock, sc.pp, sc.starts)
		p := newProvider()
		// the models after every atomic step, computed before the run
		m := sc.model()
		models := []*provModel{m.clone()}
		for _, op := range sc.ops {
			for _, s := range op.subs {
				s(m)
				models = append(models, m.clone())
			}
		}
		var started, finished atomic.Int64
		step := func(op provOp) {
			n := int64(len(op.subs))
			started.Add(n)
			op.do(p)
			finished.Add(n)
		}
		step(sc.ops[0]) // a provider without parameters has no API
		var wg sync.WaitGroup
		var done atomic.Bool
		var asked, overlapped atomic.Int64
		var mu sync.Mutex
		report := func(sig, format string, args ...any) {
			mu.Lock()
			defer mu.Unlock()
			t.Violate(sig, format, args...)
		}
		for k := 0; k < 7; k++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(t.R.Int63()))
			go func() {
				defer wg.Done()
				var lastL, lastC iotago.Version
				for i := 0; i < 4000; i++ {
					if done.Load() && i > 30 {
						return
					}
					q := qs[rr.Intn(len(qs))]
					lo := finished.Load()
					got := askSafe(q, p)
					hi := started.Load()
					asked.Add(1)
					if hi > lo {
						overlapped.Add(1)
					}
					ok := false
					var wants []string
					for s := lo; s <= hi; s++ {
						want := q.want(models[s], sc.desc)
						wants = append(wants, want)
						if want == "*" || want == got {
							ok = true

							break
						}
					}
					if !ok {
						report("concurrent:"+q.name, "%s answered %q between steps %d and %d, the model's answers there: %q", q.name, got, lo, hi, wants)
					}
					l, c := p.LatestAPI(), p.CommittedAPI()
					if l.Version() < lastL || c != nil && c.Version() < lastC {
						report("concurrent:monotone", "latest or committed API went back from %d/%d to %d/%d", lastL, lastC, l.Version(), c.Version())
					}
					lastL = l.Version()
					if c != nil {
						lastC = c.Version()
					}
				}
			}()
		}
		for _, op := range sc.ops[1:] {
			time.Sleep(time.Duration(t.R.Intn(300)) * time.Microsecond)
			step(op)
		}
		done.Store(true)
		wg.Wait()
		for _, q := range qs {
			if want := q.want(m, sc.desc); want != "*" {
				got := askSafe(q, p)
				t.Check(got == want, "final:"+q.name, "after all operations %s answered %q, want %q", q.name, got, want)
			}
		}
		t.Add("concurrent-queries", asked.Load())
		t.Add("queries-overlapping-a-write", overlapped.Load())
		t.Eval(join("concurrent", itoa(len(sc.ops)), fmt.Sprint(overlapped.Load()/16)))
	})
	c.RunSerial("writers", c.N(20, 800), func(t *Case) { // several writers whose operations commute
		w := pickWorld(t.R)
		clock := clockOf(w.PP)
		p := newProvider()
		first := provParams(t.R, w, 3)
		p.AddProtocolParametersAtEpoch(first, 0)
		all := []*iotago.V3ProtocolParameters{first}
		for v := iotago.Version(4); v < 8; v++ {
			all = append(all, provParams(t.R, w, v))
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		spawn := func(f func(r *rand.Rand)) {
			r := rand.New(rand.NewSource(t.R.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f(r)
			}()
		}
		for i, pp := range all[1:] {
			i, pp := i, pp
			spawn(func(r *rand.Rand) { p.AddProtocolParametersAtEpoch(pp, iotago.EpochIndex(10*(i+1))) })
		}
		last := clock.start(uint64(10 * (1 + t.R.Intn(4))))
		spawn(func(r *rand.Rand) { // only commits the first epochs while versions are added
			for s := clock.genesisSlot; s < clock.start(9); s += 1 + (clock.start(9)-clock.genesisSlot)/64 {
				p.SetCommittedSlot(iotago.SlotIndex(s))
			}
		})
		for k := 0; k < 3; k++ {
			spawn(func(r *rand.Rand) {
				for i := 0; i < 60; i++ {
					_, _ = p.VersionsAndProtocolParametersHash()
					_ = p.ProtocolEpochVersions()
					_ = p.APIForSlot(iotago.SlotIndex(clock.start(uint64(r.Intn(9)))))
					_, _ = p.APIForVersion(iotago.Version(3 + r.Intn(5)))
					_ = p.CommittedAPI()
				}
			})
		}
		close(start)
		wg.Wait()
		m := &provModel{params: map[iotago.Version]*iotago.V3ProtocolParameters{}, future: map[iotago.Version]iotago.Identifier{}, clock: clock}
		desc := map[*iotago.V3ProtocolParameters]string{nil: "none"}
		starts := []iotago.EpochIndex{}
		for i, pp := range all {
			desc[pp] = refDesc(pp)
			m.addParams(pp)
			m.addVersion(pp.Version(), iotago.EpochIndex(10*i))
			starts = append(starts, iotago.EpochIndex(10*i))
		}
		p.SetCommittedSlot(iotago.SlotIndex(last))
		m.slot = last
		m.update()
		for _, q := range provQueries(t.R, clock, first, starts) {
			if want := q.want(m, desc); want != "*" {
				got := askSafe(q, p)
				t.Check(got == want, "writers:"+q.name, "after concurrent writers %s answered %q, want %q", q.name, got, want)
			}
		}
		t.Eval(join("writers", w.Name, fmt.Sprint(last)))
	})
	c.RunSerial("decode", c.N(40, 800), func(t *Case) { // blocks of the first version keep decoding to the same content while the provider changes
		w := pickWorld(t.R)
		clock := clockOf(w.PP)
		p := newProvider()
		p.AddProtocolParametersAtEpoch(w.PP, 0)
		var blocks []*iotago.Block
		var encs [][]byte
		for i := 0; i < 4; i++ {
			b := genValidBlock(t.R, w)
			blocks, encs = append(blocks, b), append(encs, refBlock(b))
		}
		var wg sync.WaitGroup
		var done atomic.Bool
		var mu sync.Mutex
		for k := 0; k < 6; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 60 && !(done.Load() && i > 10); i++ {
					n := (i + k) % len(blocks)
					b, _, err := iotago.BlockFromBytes(p)(encs[n])
					if err != nil || string(refBlock(b)) != string(encs[n]) || b.MustID() != refBlockID(w, blocks[n]) {
						mu.Lock()
						t.Violate("decode", "block %d decoded to something else or failed while the provider changed: %v", n, err)
						mu.Unlock()
					}
					t.Count("concurrent-decodes")
				}
			}()
		}
		for v := iotago.Version(4); v < 8; v++ {
			p.AddProtocolParametersAtEpoch(provParams(t.R, w, v), iotago.EpochIndex(100*int(v)))
			p.SetCommittedSlot(iotago.SlotIndex(clock.start(uint64(v))))
			time.Sleep(200 * time.Microsecond)
		}
		done.Store(true)
		wg.Wait()
		t.Eval(join("decode", w.Name, itoa(t.Index)))
	})
	c.Run("single", c.N(200, 2000), func(t *Case) {
		w := pickWorld(t.R)
		p := iotago.SingleVersionProvider(w.API)
		a, err := p.APIForVersion(iotago.Version(3))
		t.Check(err == nil && a == w.API && p.LatestAPI() == w.API && p.CommittedAPI() == w.API && p.APIForEpoch(iotago.EpochIndex(ru32(t.R))) == w.API &&
			p.APIForSlot(iotago.SlotIndex(ru32(t.R))) == w.API && p.APIForTime(time.Unix(int64(ru32(t.R)), 0)) == w.API, "single", "the single version provider returned another API")
		t.Eval("single")
	})
}

// ---- P32: protocol parameters ----

func p32(c *Ctx) {
	c.Rule("options: drawn values are set through the options and read back through the accessors, before and after encoding; snapshot: parameter sets for a new network at and just beyond the limits of each consistency rule are accepted or refused; equality: pairs which differ in one encoded byte; concurrent: fresh parameters read by eight goroutines at once.")
	c.Run("options", c.N(2500, 100000), func(t *Case) {
		r := t.R
		u8 := func() uint8 { return uint8(r.Intn(256)) }
		u32 := func() uint32 { return ru32(r) }
		u64 := func() uint64 { return ru64(r) }
		hrp := []iotago.NetworkPrefix{iotago.PrefixMainnet, iotago.PrefixShimmer, iotago.PrefixTestnet, "verif"}[r.Intn(4)]
		name := rascii(r, rlen(r, 0, 255))
		version := iotago.Version(3)
		var x8 [24]uint8
		var x32 [40]uint32
		var x64 [20]uint64
		for i := range x8 {
			x8[i] = u8()
		}
		for i := range x32 {
			x32[i] = u32()
		}
		for i := range x64 {
			x64[i] = u64()
		}
		ll, lu, ret := ru16(r), ru16(r), ru16(r)
		opts := []options.Option[iotago.V3ProtocolParameters]{
			iotago.WithVersion(version),
			iotago.WithNetworkOptions(name, hrp),
			iotago.WithStorageOptions(iotago.BaseToken(x64[0]), iotago.StorageScoreFactor(x8[0]), iotago.StorageScore(x64[1]), iotago.StorageScore(x64[2]), iotago.StorageScore(x64[3]), iotago.StorageScore(x64[4])),
			iotago.WithWorkScoreOptions(iotago.WorkScore(x32[0]), iotago.WorkScore(x32[1]), iotago.WorkScore(x32[2]), iotago.WorkScore(x32[3]), iotago.WorkScore(x32[4]), iotago.WorkScore(x32[5]), iotago.WorkScore(x32[6]), iotago.WorkScore(x32[7]), iotago.WorkScore(x32[8]), iotago.WorkScore(x32[9])),
			iotago.WithSupplyOptions(iotago.BaseToken(x64[5]), x8[1], x8[2], x8[3], x8[4], x8[5], x8[6]),
			iotago.WithTimeProviderOptions(iotago.SlotIndex(x32[10]), int64(x64[6]), x8[7], x8[8]),
			iotago.WithLivenessOptions(ll, lu, iotago.SlotIndex(x32[11]), iotago.SlotIndex(x32[12]), iotago.SlotIndex(x32[13])),
			iotago.WithCongestionControlOptions(iotago.Mana(x64[7]), iotago.Mana(x64[8]), iotago.Mana(x64[9]), iotago.WorkScore(x32[14]), iotago.WorkScore(x32[15]), iotago.WorkScore(x32[16]), x32[17], x32[18]),
			iotago.WithStakingOptions(iotago.EpochIndex(x32[19]), x8[9], iotago.EpochIndex(x32[20])),
			iotago.WithVersionSignalingOptions(x8[10], x8[11], x8[12]),
			iotago.WithRewardsOptions(x8[13], x8[14], x8[15], ret),
			iotago.WithTargetCommitteeSize(x8[16]),
			iotago.WithChainSwitchingThreshold(x8[17]),
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		pp := options.Apply(new(iotago.V3ProtocolParameters), opts)
		pp.ManaParameters().DecayFactors = []uint32{}
		for i := rlen(r, 0, 40); i > 0; i-- {
			pp.ManaParameters().DecayFactors = append(pp.ManaParameters().DecayFactors, u32())
		}
		read := func(p iotago.ProtocolParameters) map[string]any {
			s, ws, m, cc, vs, rw := p.StorageScoreParameters(), p.WorkScoreParameters(), p.ManaParameters(), p.CongestionControlParameters(), p.VersionSignalingParameters(), p.RewardsParameters()

			return map[string]any{
				"version": uint64(p.Version()), "name": p.NetworkName(), "hrp": string(p.Bech32HRP()),
				"storage":   []uint64{uint64(s.StorageCost), uint64(s.FactorData), uint64(s.OffsetOutputOverhead), uint64(s.OffsetEd25519BlockIssuerKey), uint64(s.OffsetStakingFeature), uint64(s.OffsetDelegation)},
				"work":      []uint64{uint64(ws.DataByte), uint64(ws.Block), uint64(ws.Input), uint64(ws.ContextInput), uint64(ws.Output), uint64(ws.NativeToken), uint64(ws.Staking), uint64(ws.BlockIssuer), uint64(ws.Allotment), uint64(ws.SignatureEd25519)},
				"supply":    []uint64{uint64(p.TokenSupply()), uint64(m.BitsCount), uint64(m.GenerationRate), uint64(m.GenerationRateExponent), uint64(m.DecayFactorsExponent), uint64(m.DecayFactorEpochsSumExponent), uint64(m.AnnualDecayFactorPercentage)},
				"time":      []uint64{uint64(p.GenesisSlot()), uint64(p.GenesisUnixTimestamp()), uint64(p.SlotDurationInSeconds()), uint64(p.SlotsPerEpochExponent())},
				"liveness":  []uint64{uint64(p.LivenessThresholdLowerBound() / time.Second), uint64(p.LivenessThresholdUpperBound() / time.Second), uint64(p.MinCommittableAge()), uint64(p.MaxCommittableAge()), uint64(p.EpochNearingThreshold())},
				"rmc":       []uint64{uint64(cc.MinReferenceManaCost), uint64(cc.Increase), uint64(cc.Decrease), uint64(cc.IncreaseThreshold), uint64(cc.DecreaseThreshold), uint64(cc.SchedulerRate), uint64(cc.MaxBufferSize), uint64(cc.MaxValidationBufferSize)},
				"staking":   []uint64{uint64(p.StakingUnbondingPeriod()), uint64(p.ValidationBlocksPerSlot()), uint64(p.PunishmentEpochs())},
				"signaling": []uint64{uint64(vs.WindowSize), uint64(vs.WindowTargetRatio), uint64(vs.ActivationOffset)},
				"rewards":   []uint64{uint64(rw.ProfitMarginExponent), uint64(rw.PoolCoefficientExponent), uint64(rw.RewardToGenerationRatio), uint64(rw.RetentionPeriod)},
				"committee": uint64(p.TargetCommitteeSize()), "switching": uint64(p.ChainSwitchingThreshold()),
				"factors": fmt.Sprint(m.DecayFactors), "network": p.NetworkID(), "genesis": p.GenesisBlockID().ToHex(),
			}
		}
		w := func(i, n int) (l []uint64) {
			for _, v := range x32[i : i+n] {
				l = append(l, uint64(v))
			}

			return l
		}
		nameHash := blake([]byte(name))
		var gb [36]byte
		binary.LittleEndian.PutUint32(gb[32:], x32[10])
		want := map[string]any{
			"version": uint64(3), "name": name, "hrp": string(hrp),
			"storage":   []uint64{x64[0], uint64(x8[0]), x64[1], x64[2], x64[3], x64[4]},
			"work":      w(0, 10),
			"supply":    []uint64{x64[5], uint64(x8[1]), uint64(x8[2]), uint64(x8[3]), uint64(x8[4]), uint64(x8[5]), uint64(x8[6])},
			"time":      []uint64{uint64(x32[10]), x64[6], uint64(x8[7]), uint64(x8[8])},
			"liveness":  []uint64{uint64(ll), uint64(lu), uint64(x32[11]), uint64(x32[12]), uint64(x32[13])},
			"rmc":       append([]uint64{x64[7], x64[8], x64[9]}, w(14, 5)...),
			"staking":   []uint64{uint64(x32[19]), uint64(x8[9]), uint64(x32[20])},
			"signaling": []uint64{uint64(x8[10]), uint64(x8[11]), uint64(x8[12])},
			"rewards":   []uint64{uint64(x8[13]), uint64(x8[14]), uint64(x8[15]), uint64(ret)},
			"committee": uint64(x8[16]), "switching": uint64(x8[17]),
			"factors": fmt.Sprint(pp.ManaParameters().DecayFactors), "network": binary.LittleEndian.Uint64(nameHash[:8]), "genesis": fmt.Sprintf("0x%x", gb[:]),
		}
		cmp := func(what string, got map[string]any) {
			for k, v := range want {
				t.Check(fmt.Sprint(v) == fmt.Sprint(got[k]), "options:"+k, "%s: %s is %v, want %v", what, k, got[k], v)
			}
		}
		cmp("built", read(pp))
		b, err := pp.Bytes()
		if !t.Check(err == nil && string(b) == string(refParams(pp)), "bytes", "Bytes(): %v %s", err, sameBytes(b, refParams(pp))) {
			return
		}
		b = append([]byte{}, b...)
		var dec iotago.ProtocolParameters
		n, err := iotago.CommonSerixAPI().Decode(context.Background(), b, &dec)
		if t.Check(err == nil && n == len(b), "decode", "parameters do not decode: %v", err) {
			cmp("decoded", read(dec))
			t.Check(pp.Equals(dec) && dec.Equals(pp) && pp.Equals(pp), "equal", "parameters differ from their decoded form")
			h1, e1 := pp.Hash()
			h2, e2 := dec.Hash()
			want := blake(b)
			t.Check(e1 == nil && e2 == nil && h1 == h2 && h1 == iotago.Identifier(want), "hash", "hash %s / %s, want %x", h1, h2, want)
			h3, _ := pp.Hash()
			t.Check(h3 == h1, "hash", "the second call returned another hash")
		}
		t.Eval(join("options", fmt.Sprint(len(name)/16), string(hrp), fmt.Sprint(len(pp.ManaParameters().DecayFactors))))
	})
	c.Run("snapshot", c.N(2000, 60000), p32Snapshot)
	c.Run("equality", c.N(1200, 50000), func(t *Case) {
		pp := genProtoParams(t.R)
		if coin(t.R, 2) && len(pp.ManaParameters().DecayFactors) > 3 {
			pp.ManaParameters().DecayFactors = pp.ManaParameters().DecayFactors[:t.R.Intn(4)]
		}
		enc := refParams(pp)
		dec := func(b []byte) iotago.ProtocolParameters {
			var p iotago.ProtocolParameters
			if n, err := iotago.CommonSerixAPI().Decode(context.Background(), b, &p); err != nil || n != len(b) {
				return nil
			}

			return p
		}
		same := dec(append([]byte{}, enc...))
		if !t.Check(same != nil && same.Equals(pp) && pp.Equals(same), "equality:same", "parameters differ from their decoded copy") {
			return
		}
		for try := 0; try < 24; try++ {
			b := append([]byte{}, enc...)
			i := t.R.Intn(len(b))
			b[i] ^= byte(1 << uint(t.R.Intn(8)))
			other := dec(b)
			if other == nil {
				t.Count("undecodable-variants")

				continue
			}
			t.Check(!other.Equals(pp) && !pp.Equals(other) && !same.Equals(other), "equality:different", "parameters which differ in byte %d of %d are equal", i, len(b))
			h, err := other.Hash()
			h0, _ := pp.Hash()
			t.Check(err == nil && h != h0, "equality:hash", "parameters which differ in byte %d have the same hash", i)
			t.Count("single-bit-variants")
			t.Eval(join("equality", itoa(i), itoa(len(b))))
		}
		a1 := provParams(t.R, pickWorld(t.R), 3)
		a2 := dec(refParams(a1))
		if t.Check(a2 != nil, "equality:api", "parameters do not decode") {
			api1, api2 := iotago.V3API(a1), iotago.V3API(a2)
			if e, is := api1.(interface{ Equals(iotago.API) bool }); is {
				t.Check(e.Equals(api2), "equality:api", "APIs with equal parameters differ")
				a3 := provParams(t.R, pickWorld(t.R), 3)
				eq := string(refParams(a1)) == string(refParams(a3))
				t.Check(e.Equals(iotago.V3API(a3)) == eq, "equality:api", "API equality differs from parameter equality")
			}
		}
	})
	c.RunSerial("concurrent", c.N(1500, 60000), func(t *Case) {
		pp := genProtoParams(t.R)
		enc := refParams(pp)
		hash := iotago.Identifier(blake(enc))
		nh := blake([]byte(pp.NetworkName()))
		nid := binary.LittleEndian.Uint64(nh[:8])
		var other iotago.ProtocolParameters
		if _, err := iotago.CommonSerixAPI().Decode(context.Background(), enc, &other); err != nil {
			t.Violate("concurrent:decode", "parameters do not decode: %v", err)

			return
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		var mu sync.Mutex
		for k := 0; k < 8; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				bad := ""
				for i := 0; i < 6 && bad == ""; i++ {
					switch (i + k) % 6 {
					case 0:
						if b, err := pp.Bytes(); err != nil || string(b) != string(enc) {
							bad = "Bytes"
						}
					case 1:
						if h, err := pp.Hash(); err != nil || h != hash {
							bad = "Hash"
						}
					case 2:
						if pp.NetworkID() != nid {
							bad = "NetworkID"
						}
					case 3:
						if !pp.Equals(other) || !other.Equals(pp) {
							bad = "Equals"
						}
					case 4:
						if b, err := iotago.CommonSerixAPI().Encode(context.Background(), pp); err != nil || string(b) != string(enc) {
							bad = "Encode"
						}
					case 5:
						if h, err := other.Hash(); err != nil || h != hash {
							bad = "Hash of the copy"
						}
					}
				}
				if bad != "" {
					mu.Lock()
					t.Violate("concurrent:"+bad, "%s gave a different answer when called concurrently", bad)
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		t.Add("concurrent-reads", 48)
		t.Eval(join("concurrent", itoa(len(enc))))
	})
}
