package main

// Generator of transactions together with their resolved inputs. A scene is composed of moves (transfers, creations, transitions
// and destructions of every chain type), then base tokens, native tokens and mana are balanced and the inputs are unlocked with
// real signatures. Mutations cross single rules; the reference decides which rules a scene breaks.

import (
	"bytes"
	"math/big"
	"math/rand"
	"reflect"
	"sort"

	iotago "github.com/iotaledger/iota.go/v4"
)

type vmIn struct {
	id     iotago.OutputID
	o      iotago.TxEssenceOutput
	reward *uint64
	bic    *int64
}

type vmLink struct {
	in  *vmIn
	out *iotago.AccountOutput
}

type vmGen struct {
	r                            *rand.Rand
	w                            *World
	clk                          refClock
	create, commit, past, future uint64
	hasCommit                    bool
	ins                          []*vmIn
	outs                         []iotago.TxEssenceOutput
	chains                       []iotago.Address // chain addresses which are unlocked by the inputs so far
	owners                       []iotago.Address // addresses which unlock inputs
	keys                         []keyPair
	multis                       []*iotago.MultiAddress
	caps                         map[int]bool
	allot                        map[iotago.AccountID]uint64
	extra                        map[iotago.TxEssenceOutput]uint64 // wanted amount above the minimum
	lateFeats, afterAmount       []func()
	issuers                      []vmLink // transitions of accounts whose mana is locked
	tokens                       []iotago.FoundryID
	owed                         map[string]*vmOwed
	noRemainder, usedImplicit    bool
	kinds                        map[string]bool
}

type vmOwed struct {
	addr   iotago.Address
	amount uint64
}

func fullCaps(r *rand.Rand) iotago.AddressCapabilitiesBitMask {
	if coin(r, 3) {
		return iotago.AddressCapabilitiesBitMask{0xff, 0x01}
	}

	return iotago.AddressCapabilitiesBitMask{0xff, 0xff}
}

// pickNear picks a value from [lo, hi], preferring the bounds.
func pickNear(r *rand.Rand, lo, hi uint64) uint64 {
	if hi <= lo {
		return lo
	}
	switch r.Intn(5) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return lo + min(hi-lo, uint64(r.Intn(3)))
	case 3:
		return hi - min(hi-lo, uint64(r.Intn(3)))
	}

	return lo + uint64(r.Int63n(int64(hi-lo)+1))
}

func newVMGen(r *rand.Rand) *vmGen {
	g := &vmGen{r: r, w: pickWorld(r), caps: map[int]bool{}, allot: map[iotago.AccountID]uint64{}, extra: map[iotago.TxEssenceOutput]uint64{}, owed: map[string]*vmOwed{}, kinds: map[string]bool{}}
	g.clk = clockOf(g.w.PP)
	perEpoch := uint64(1) << g.clk.exp
	epoch := uint64(3 + r.Intn(6))
	if coin(r, 10) {
		epoch = uint64(r.Intn(100))
	}
	// the commitment, or one of the slots bounded by it, lies close to an epoch boundary quite often
	base := g.clk.start(epoch)
	off := uint64(r.Int63n(int64(perEpoch)))
	shift := []uint64{0, uint64(g.w.PP.MinCommittableAge()), uint64(g.w.PP.MaxCommittableAge()), uint64(g.w.PP.EpochNearingThreshold()), uint64(g.w.PP.EpochNearingThreshold() + g.w.PP.MaxCommittableAge()), uint64(g.w.PP.EpochNearingThreshold() + g.w.PP.MinCommittableAge())}[r.Intn(6)]
	if coin(r, 2) && epoch > 0 {
		base = base + perEpoch - shift + uint64(r.Intn(5)) - 2
		off = 0
	}
	g.setCommit(base + off)
	g.create = g.commit + uint64(r.Intn(int(g.w.PP.MaxCommittableAge())+3))
	perm := r.Perm(len(keyPool))
	for _, k := range perm[:14] {
		g.keys = append(g.keys, keyPool[k])
	}

	return g
}

func (g *vmGen) setCommit(slot uint64) {
	g.commit = slot
	g.past = slot + uint64(g.w.PP.MaxCommittableAge())
	g.future = slot + uint64(g.w.PP.MinCommittableAge())
}

func (g *vmGen) note(kind string) { g.kinds[kind] = true }

func (g *vmGen) newInID() (id iotago.OutputID) {
	r := g.r
	id = genOutputID(r)
	lo := g.clk.genesisSlot
	perEpoch := uint64(1) << g.clk.exp
	if g.create-lo > perEpoch*6 && !coin(r, 6) {
		lo = g.create - perEpoch*uint64(1+r.Intn(6))
	}
	s := pickNear(r, lo, g.create)
	id[32], id[33], id[34], id[35] = byte(s), byte(s>>8), byte(s>>16), byte(s>>24)
	id[36], id[37] = byte(r.Intn(128)), 0

	return id
}

func (g *vmGen) amount() uint64 {
	r := g.r
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(10) + 1)
	case 1:
		return uint64(g.w.PP.TokenSupply()) / uint64(40+r.Intn(100))
	}

	return uint64(r.Int63n(5_000_000_000)) + 1
}

func (g *vmGen) mana() uint64 {
	switch g.r.Intn(4) {
	case 0:
		return 0
	case 1:
		return uint64(g.r.Int63n(1 << 45))
	}

	return uint64(g.r.Int63n(1 << 24))
}

// owner picks an address which can unlock the next input.
func (g *vmGen) owner() iotago.Address {
	r := g.r
	var a iotago.Address
	switch k := r.Intn(20); {
	case k < 4 && len(g.chains) > 0:
		a = g.chains[r.Intn(len(g.chains))].Clone()
	case k < 7:
		a = g.multi()
	case k < 9 && len(g.owners) > 0:
		a = underlying(g.owners[r.Intn(len(g.owners))]).Clone()
		if isImplicit(a) {
			// the same key, as an ordinary address
			x := iotago.Ed25519Address([32]byte([]byte(akey(a)[1:])))
			a = &x
			g.note("implicit-key-reused")
		}
	default:
		a = g.keys[r.Intn(4)].ed()
	}
	if coin(r, 6) {
		a = &iotago.RestrictedAddress{Address: a, AllowedCapabilities: fullCaps(r)}
	}

	return a
}

func (g *vmGen) multi() iotago.Address {
	r := g.r
	if len(g.multis) > 0 && coin(r, 2) {
		return g.multis[r.Intn(len(g.multis))].Clone()
	}
	m := &iotago.MultiAddress{}
	perm := r.Perm(6)
	sum := 0
	size, heavy := 1+r.Intn(4), 6
	if coin(r, 6) {
		// many members, with weights which count by their number
		size, heavy = 1+r.Intn(6), 50
		for i := 0; i < 2+r.Intn(3); i++ {
			m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: genDirectAddr(r), Weight: byte(1 + r.Intn(4))})
		}
	}
	for i := 0; i < size; i++ {
		k := g.keys[6+perm[i]]
		if coin(r, 8) {
			k = g.keys[r.Intn(4)]
		}
		w := 1 + r.Intn(4)
		if coin(r, heavy) {
			w = 255
		}
		m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: k.ed(), Weight: byte(w)})
	}
	if len(g.chains) > 0 && coin(r, 2) {
		m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: g.chains[r.Intn(len(g.chains))].Clone(), Weight: byte(1 + r.Intn(9))})
	}
	if len(m.Addresses) < 2 || coin(r, 3) {
		m.Addresses = append(m.Addresses, &iotago.AddressWithWeight{Address: genDirectAddr(r), Weight: byte(1 + r.Intn(9))})
	}
	m.Addresses = sortUniqueAddrs(m.Addresses)
	if len(m.Addresses) > 10 {
		m.Addresses = m.Addresses[:10]
	}
	for _, x := range m.Addresses {
		if g.known(x.Address) >= 0 {
			sum += int(x.Weight)
		}
	}
	if len(m.Addresses) < 2 || sum == 0 {
		return g.keys[0].ed()
	}
	m.Threshold = uint16(1 + r.Intn(sum))
	if coin(r, 2) {
		m.Threshold = uint16(sum)
	}
	g.multis = append(g.multis, m)

	return m.Clone()
}

// known returns the index of the key which unlocks the address, or -1.
func (g *vmGen) known(a iotago.Address) int {
	for i, k := range g.keys {
		h := k.hash()
		if akey(a)[1:] == string(h[:]) {
			return i
		}
	}

	return -1
}

func (g *vmGen) dest() iotago.Address {
	r := g.r
	switch r.Intn(4) {
	case 0:
		return genDirectAddr(r)
	case 1:
		return &iotago.RestrictedAddress{Address: genDirectAddr(r), AllowedCapabilities: fullCaps(r)}
	case 2:
		if len(g.multis) > 0 {
			return g.multis[r.Intn(len(g.multis))].Clone()
		}
	}

	return g.keys[r.Intn(len(g.keys))].ed()
}

func (g *vmGen) addIn(o iotago.TxEssenceOutput, owner iotago.Address) *vmIn {
	if u, has := getUC[*iotago.StorageDepositReturnUnlockCondition](o); has && refAmount(o) < uint64(u.Amount) {
		refSetAmount(o, uint64(u.Amount)+uint64(g.r.Intn(2)))
	}
	x := &vmIn{id: g.newInID(), o: o}
	g.ins = append(g.ins, x)
	if owner != nil {
		g.owners = append(g.owners, underlying(owner))
	}

	return x
}

func (g *vmGen) addOut(o iotago.TxEssenceOutput) {
	g.outs = append(g.outs, o)
	if coin(g.r, 2) {
		g.extra[o] = uint64(g.r.Int63n(1_000_000))
	} else {
		g.extra[o] = 0
	}
}

func (g *vmGen) chainAddrUnlocked(in *vmIn) {
	if _, a := chainOf(in.o, in.id); a != nil {
		g.chains = append(g.chains, a)
	}
}

func metaFeat(r *rand.Rand) *iotago.MetadataFeature {
	return &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{"k": rbytes(r, r.Intn(20)), iotago.MetadataFeatureEntriesKey("x" + rascii(r, 1+r.Intn(3))): rbytes(r, r.Intn(9))}}
}

func stateMetaFeat(r *rand.Rand) *iotago.StateMetadataFeature {
	return &iotago.StateMetadataFeature{Entries: iotago.StateMetadataFeatureEntries{"s": rbytes(r, r.Intn(20))}}
}

// lateSender adds a sender feature with an unlocked address after all inputs are known.
func (g *vmGen) lateSender(add func(*iotago.SenderFeature)) {
	if !coin(g.r, 4) {
		return
	}
	g.note("sender")
	g.lateFeats = append(g.lateFeats, func() { add(&iotago.SenderFeature{Address: g.unlockedAddr()}) })
}

func (g *vmGen) unlockedAddr() iotago.Address {
	r := g.r
	l := append(append([]iotago.Address{}, g.owners...), g.chains...)
	var usable []iotago.Address
	for _, a := range l {
		if !isImplicit(a) {
			usable = append(usable, a)
		}
	}
	if len(usable) == 0 {
		return g.keys[0].ed()
	}
	a := usable[r.Intn(len(usable))].Clone()
	if coin(r, 4) {
		a = &iotago.RestrictedAddress{Address: a, AllowedCapabilities: genCaps(r)}
		if refAddrOK(a) != "" {
			a = a.(*iotago.RestrictedAddress).Address
		}
	}

	return a
}

// ---- time ----

// timeUCs adds unlock conditions which do not prevent the input from being unlocked; it returns the final owner.
func (g *vmGen) timeUCs(owner iotago.Address, add func(u iotago.UnlockCondition)) iotago.Address {
	r := g.r
	var sdr *iotago.StorageDepositReturnUnlockCondition
	var tl *iotago.TimelockUnlockCondition
	var exp *iotago.ExpirationUnlockCondition
	first := owner
	if coin(r, 4) {
		g.hasCommit = true
		tl = &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(pickNear(r, 1, g.future))}
		g.note("timelock")
	}
	if coin(r, 3) {
		g.hasCommit = true
		if coin(r, 2) {
			exp = &iotago.ExpirationUnlockCondition{Slot: iotago.SlotIndex(pickNear(r, 1, g.future)), ReturnAddress: owner}
			first = g.dest()
			g.note("expired")
		} else {
			exp = &iotago.ExpirationUnlockCondition{Slot: iotago.SlotIndex(pickNear(r, g.past+1, g.past+200)), ReturnAddress: g.dest()}
			g.note("not-expired")
		}
	}
	if coin(r, 3) {
		ret := iotago.Address(g.keys[r.Intn(len(g.keys))].ed())
		if coin(r, 2) {
			ret = g.keys[r.Intn(2)].ed()
		}
		if exp != nil && coin(r, 2) {
			if _, restricted := exp.ReturnAddress.(*iotago.RestrictedAddress); !restricted {
				ret = exp.ReturnAddress.Clone()
			}
		} else if coin(r, 5) {
			ret = genDirectAddr(r)
		}
		sdr = &iotago.StorageDepositReturnUnlockCondition{ReturnAddress: ret, Amount: iotago.BaseToken(refReturnDeposit(g.w.PP.StorageScoreParameters(), ret).Uint64() + uint64(r.Intn(1000))*uint64(r.Intn(2)))}
		if akey(underlying(owner)) != akey(ret) {
			k := akey(ret)
			if g.owed[k] == nil {
				g.owed[k] = &vmOwed{addr: ret}
			}
			g.owed[k].amount += uint64(sdr.Amount)
			g.note("sdr")
		} else {
			g.note("sdr-waived")
		}
	}
	add(&iotago.AddressUnlockCondition{Address: first})
	if sdr != nil {
		add(sdr)
	}
	if tl != nil {
		add(tl)
	}
	if exp != nil {
		add(exp)
	}

	return owner
}

// ---- moves ----

func (g *vmGen) mvBasic() {
	r := g.r
	o := &iotago.BasicOutput{Amount: iotago.BaseToken(g.amount()), Mana: iotago.Mana(g.mana())}
	owner := g.owner()
	g.timeUCs(owner, func(u iotago.UnlockCondition) {
		o.UnlockConditions = append(o.UnlockConditions, u.(iotago.BasicOutputUnlockCondition))
	})
	if coin(r, 5) {
		o.Features = append(o.Features, &iotago.SenderFeature{Address: genDirectAddr(r)})
	}
	if coin(r, 6) {
		o.Features = append(o.Features, metaFeat(r))
	}
	if coin(r, 6) {
		o.Features = append(o.Features, &iotago.TagFeature{Tag: rbytes(r, 1+r.Intn(5))})
	}
	g.addIn(o, owner)
	g.note("basic")
}

func (g *vmGen) basicOut() *iotago.BasicOutput {
	r := g.r
	o := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: g.dest()}}}
	if coin(r, 8) {
		o.UnlockConditions = append(o.UnlockConditions, &iotago.TimelockUnlockCondition{Slot: slotNZ(r)})
	}
	if coin(r, 8) {
		o.UnlockConditions = append(o.UnlockConditions, &iotago.ExpirationUnlockCondition{Slot: slotNZ(r), ReturnAddress: g.dest()})
	}
	g.lateSender(func(f *iotago.SenderFeature) { o.Features = append(iotago.BasicOutputFeatures{f}, o.Features...) })
	if coin(r, 8) {
		o.Features = append(o.Features, metaFeat(r))
	}
	g.addOut(o)

	return o
}

// ntIn and ntOut put native tokens on the input and output side.
func (g *vmGen) ntIn(id iotago.FoundryID, amount *big.Int) {
	if amount.Sign() == 0 {
		return
	}
	owner := g.owner()
	o := &iotago.BasicOutput{Amount: iotago.BaseToken(g.amount()), Mana: iotago.Mana(g.mana())}
	g.timeUCs(owner, func(u iotago.UnlockCondition) {
		o.UnlockConditions = append(o.UnlockConditions, u.(iotago.BasicOutputUnlockCondition))
	})
	o.Features = iotago.BasicOutputFeatures{&iotago.NativeTokenFeature{ID: id, Amount: new(big.Int).Set(amount)}}
	g.addIn(o, owner)
}

func (g *vmGen) ntOut(id iotago.FoundryID, amount *big.Int) {
	for amount.Sign() > 0 {
		part := new(big.Int).Set(amount)
		if coin(g.r, 3) && amount.Cmp(big.NewInt(1)) > 0 {
			part.Rand(g.r, amount)
			if part.Sign() == 0 {
				part.SetInt64(1)
			}
		}
		o := g.basicOut()
		pos := 0
		for pos < len(o.Features) && refFeatType(o.Features[pos]) < 4 {
			pos++
		}
		o.Features = append(o.Features[:pos:pos], append(iotago.BasicOutputFeatures{&iotago.NativeTokenFeature{ID: id, Amount: part}}, o.Features[pos:]...)...)
		amount = new(big.Int).Sub(amount, part)
	}
}

func (g *vmGen) ntAmount() *big.Int {
	switch g.r.Intn(6) {
	case 0:
		return big.NewInt(1)
	case 1:
		return new(big.Int).Rsh(nonZeroBig(g.r), 3)
	}

	return big.NewInt(int64(1 + g.r.Intn(1_000_000)))
}

func (g *vmGen) mvToken() {
	id := genFoundryID(g.r)
	if len(g.tokens) > 0 && coin(g.r, 3) {
		id = g.tokens[g.r.Intn(len(g.tokens))]
	}
	g.tokens = append(g.tokens, id)
	total := new(big.Int)
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		a := g.ntAmount()
		if a.Sign() == 0 {
			a.SetInt64(1)
		}
		g.ntIn(id, a)
		total.Add(total, a)
	}
	if total.BitLen() > 255 {
		total.Rsh(total, 1)
		g.caps[0] = true
	}
	if coin(g.r, 4) {
		g.caps[0] = true
		total = bigBelow(g.r, total)
		g.note("nt-burn")
	}
	g.ntOut(id, total)
	g.note("nt-transfer")
}

func (g *vmGen) keys1() iotago.BlockIssuerKeys {
	var ks iotago.BlockIssuerKeys
	for n := 1 + g.r.Intn(3); n > 0; n-- {
		ks = append(ks, genBIKey(g.r))
	}

	return sortBIKeys(ks)
}

func (g *vmGen) farSlot() iotago.SlotIndex {
	switch g.r.Intn(4) {
	case 0:
		return iotago.SlotIndex(g.past)
	case 1:
		return iotago.MaxSlotIndex
	}

	return iotago.SlotIndex(g.past + uint64(g.r.Intn(1000)))
}

func (g *vmGen) bic() *int64 {
	x := int64(g.r.Intn(3))
	if coin(g.r, 3) {
		x = g.r.Int63()
	}

	return &x
}

func (g *vmGen) reward() *uint64 {
	x := uint64(g.r.Int63n(1 << 30))
	if coin(g.r, 4) {
		x = 0
	}

	return &x
}

// stakingNew creates a staking feature which is valid for a new registration. The staked amount is set when the amount is known.
func (g *vmGen) stakingNew() *iotago.StakingFeature {
	e := g.clk.epoch(g.past)
	end := e + uint64(g.w.PP.StakingUnbondingPeriod())
	switch g.r.Intn(3) {
	case 0:
	case 1:
		end += uint64(g.r.Intn(10))
	default:
		end = 1<<32 - 1
	}

	return &iotago.StakingFeature{StartEpoch: iotago.EpochIndex(e), EndEpoch: iotago.EpochIndex(end), FixedCost: iotago.Mana(g.r.Intn(1000))}
}

func (g *vmGen) stakeLater(o *iotago.AccountOutput, s *iotago.StakingFeature) {
	g.afterAmount = append(g.afterAmount, func() {
		s.StakedAmount = o.Amount
		if coin(g.r, 2) {
			s.StakedAmount = iotago.BaseToken(g.r.Int63n(int64(o.Amount) + 1))
		}
	})
}

func (g *vmGen) issuerImm() (l []*iotago.IssuerFeature) {
	if coin(g.r, 3) {
		g.note("issuer")
		l = append(l, &iotago.IssuerFeature{})
	}

	return l
}

// accountFeats assembles the features of an account in their order.
func accountFeats(sender *iotago.SenderFeature, meta *iotago.MetadataFeature, b *iotago.BlockIssuerFeature, s *iotago.StakingFeature) (fs iotago.AccountOutputFeatures) {
	if sender != nil {
		fs = append(fs, sender)
	}
	if meta != nil {
		fs = append(fs, meta)
	}
	if b != nil {
		fs = append(fs, b)
	}
	if s != nil {
		fs = append(fs, s)
	}

	return fs
}

func (g *vmGen) mvAccountGenesis() {
	r := g.r
	o := &iotago.AccountOutput{UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: g.dest()}}}
	for range g.issuerImm() {
		f := &iotago.IssuerFeature{}
		o.ImmutableFeatures = append(o.ImmutableFeatures, f)
		g.lateFeats = append(g.lateFeats, func() { f.Address = g.unlockedAddr() })
	}
	if coin(r, 3) {
		o.ImmutableFeatures = append(o.ImmutableFeatures, metaFeat(r))
	}
	g.newAccountFeats(o)
	g.addOut(o)
	g.note("account-genesis")
}

// newAccountFeats gives a new account features.
func (g *vmGen) newAccountFeats(o *iotago.AccountOutput) {
	r := g.r
	var b *iotago.BlockIssuerFeature
	var s *iotago.StakingFeature
	var m *iotago.MetadataFeature
	if coin(r, 2) {
		g.hasCommit = true
		b = &iotago.BlockIssuerFeature{ExpirySlot: g.farSlot(), BlockIssuerKeys: g.keys1()}
		if coin(r, 2) {
			s = g.stakingNew()
			g.stakeLater(o, s)
			g.note("staking-genesis")
		}
	}
	if coin(r, 4) {
		m = metaFeat(r)
	}
	o.Features = accountFeats(nil, m, b, s)
	g.lateSender(func(f *iotago.SenderFeature) { o.Features = append(iotago.AccountOutputFeatures{f}, o.Features...) })
}

// existing account on the input side
func (g *vmGen) accountIn(bif, staking int) (*vmIn, *iotago.AccountOutput, *iotago.BlockIssuerFeature, *iotago.StakingFeature) {
	r := g.r
	owner := g.owner()
	o := &iotago.AccountOutput{Amount: iotago.BaseToken(g.amount()), Mana: iotago.Mana(g.mana()), UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: owner}}}
	if !coin(r, 4) {
		o.AccountID = iotago.AccountID(r32(r))
		o.FoundryCounter = uint32(r.Intn(4))
		if coin(r, 10) {
			o.FoundryCounter = 1<<32 - 1 - uint32(r.Intn(3))
		}
	}
	if coin(r, 3) {
		o.ImmutableFeatures = append(o.ImmutableFeatures, &iotago.IssuerFeature{Address: genDirectAddr(r)})
	}
	if coin(r, 3) {
		o.ImmutableFeatures = append(o.ImmutableFeatures, metaFeat(r))
	}
	var b *iotago.BlockIssuerFeature
	var s *iotago.StakingFeature
	in := g.addIn(o, owner)
	switch bif {
	case 1: // unexpired
		b = &iotago.BlockIssuerFeature{BlockIssuerKeys: g.keys1(), ExpirySlot: iotago.SlotIndex(pickNear(r, g.commit, g.past+100))}
		if coin(r, 5) {
			b.ExpirySlot = iotago.MaxSlotIndex
		}
	case 2: // expired
		b = &iotago.BlockIssuerFeature{BlockIssuerKeys: g.keys1(), ExpirySlot: iotago.SlotIndex(pickNear(r, 0, g.commit-1))}
	}
	fe := g.clk.epoch(g.future)
	switch staking {
	case 1:
		s = &iotago.StakingFeature{StartEpoch: iotago.EpochIndex(r.Intn(int(fe) + 1)), EndEpoch: iotago.EpochIndex(pickNear(r, fe, fe+20)), FixedCost: iotago.Mana(r.Intn(99))}
	case 2:
		s = &iotago.StakingFeature{StartEpoch: iotago.EpochIndex(r.Intn(2)), EndEpoch: iotago.EpochIndex(pickNear(r, 0, fe-1)), FixedCost: iotago.Mana(r.Intn(99))}
	}
	if s != nil {
		s.StakedAmount = iotago.BaseToken(r.Int63n(int64(o.Amount) + 1))
	}
	if b != nil || s != nil {
		g.hasCommit = true
		in.bic = g.bic()
	}
	var m *iotago.MetadataFeature
	if coin(r, 4) {
		m = metaFeat(r)
	}
	var snd *iotago.SenderFeature
	if coin(r, 6) {
		snd = &iotago.SenderFeature{Address: genDirectAddr(r)}
	}
	o.Features = accountFeats(snd, m, b, s)
	g.chainAddrUnlocked(in)

	return in, o, b, s
}

func (g *vmGen) bifCase() (int, int) {
	r := g.r
	bif := r.Intn(3)
	staking := 0
	if bif != 0 && coin(r, 2) {
		staking = 1 + r.Intn(2)
	}
	if staking == 2 && g.clk.epoch(g.future) == 0 || bif == 2 && g.commit == 0 {
		return 0, 0
	}

	return bif, staking
}

func (g *vmGen) mvAccountState() (*vmIn, *iotago.AccountOutput, *iotago.AccountOutput) {
	r := g.r
	bif, staking := g.bifCase()
	in, cur, b, s := g.accountIn(bif, staking)
	next := &iotago.AccountOutput{
		AccountID: iotago.AccountID(refChain32(cur.AccountID, in.id)), FoundryCounter: cur.FoundryCounter,
		UnlockConditions:  iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: g.dest()}},
		ImmutableFeatures: cur.ImmutableFeatures.Clone(),
	}
	if a, is := addrUC(next).(*iotago.AccountAddress); is && [32]byte(*a) == [32]byte(next.AccountID) {
		next.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = g.keys[0].ed()
	}
	var nb *iotago.BlockIssuerFeature
	var ns *iotago.StakingFeature
	switch {
	case bif == 1:
		nb = &iotago.BlockIssuerFeature{ExpirySlot: b.ExpirySlot, BlockIssuerKeys: g.keys1()}
		if coin(r, 2) {
			nb.ExpirySlot = g.farSlot()
			g.note("block-issuer-extended")
		}
	case bif == 2 && coin(r, 2) && staking != 1:
		g.note("block-issuer-removed")
	case bif == 2 || coin(r, 3):
		g.hasCommit = true
		nb = &iotago.BlockIssuerFeature{ExpirySlot: g.farSlot(), BlockIssuerKeys: g.keys1()}
		g.note("block-issuer-added")
	}
	switch staking {
	case 0:
		if nb != nil && coin(r, 3) {
			ns = g.stakingNew()
			g.stakeLater(next, ns)
			g.note("staking-added")
		}
	case 1:
		c := *s
		ns = &c
		if coin(r, 2) {
			ns.EndEpoch = iotago.EpochIndex(pickNear(r, g.clk.epoch(g.past)+uint64(g.w.PP.StakingUnbondingPeriod()), 1<<32-1))
			g.note("staking-extended")
		}
		g.afterAmount = append(g.afterAmount, func() {
			if s.StakedAmount > next.Amount {
				s.StakedAmount = next.Amount
			}
			ns.StakedAmount = s.StakedAmount
		})
	case 2:
		switch k := r.Intn(3); {
		case k == 0 && nb != nil:
			c := *s
			ns = &c
			g.afterAmount = append(g.afterAmount, func() {
				if s.StakedAmount > next.Amount {
					s.StakedAmount = next.Amount
				}
				ns.StakedAmount = s.StakedAmount
			})
			g.note("staking-expired-kept")
		case k == 1 && nb != nil:
			ns = g.stakingNew()
			in.reward = g.reward()
			if coin(r, 2) {
				ns.FixedCost = s.FixedCost
			}
			if coin(r, 2) {
				g.afterAmount = append(g.afterAmount, func() {
					s.StakedAmount = min(s.StakedAmount, next.Amount)
					ns.StakedAmount = s.StakedAmount
				})
			} else {
				g.stakeLater(next, ns)
			}
			g.note("staking-reset")
		default:
			in.reward = g.reward()
			g.note("staking-removed")
		}
	}
	var m *iotago.MetadataFeature
	if coin(r, 4) {
		m = metaFeat(r)
	}
	next.Features = accountFeats(nil, m, nb, ns)
	g.lateSender(func(f *iotago.SenderFeature) {
		next.Features = append(iotago.AccountOutputFeatures{f}, next.Features...)
	})
	g.addOut(next)
	if b != nil || nb != nil {
		g.issuers = append(g.issuers, vmLink{in, next})
	}
	g.note("account-state")

	return in, cur, next
}

func (g *vmGen) mvAccountDestroy() {
	bif, staking := g.bifCase()
	if bif == 1 {
		if g.commit == 0 {
			return
		}
		bif = 2
	}
	if staking == 1 {
		staking = 0
	}
	in, _, _, _ := g.accountIn(bif, staking)
	if staking == 2 {
		in.reward = g.reward()
	}
	g.caps[2] = true
	g.note("account-destroy")
}

func (g *vmGen) mvImplicit() {
	r := g.r
	if g.usedImplicit {
		return
	}
	g.usedImplicit = true
	k := g.keys[4+r.Intn(2)]
	if coin(r, 3) {
		k = g.keys[r.Intn(4)]
	}
	// the signature has to be the first one with this key
	for _, a := range g.owners {
		if h := k.hash(); akey(a)[1:] == string(h[:]) {
			k = g.keys[13]
		}
	}
	o := &iotago.BasicOutput{Amount: iotago.BaseToken(g.amount()), Mana: iotago.Mana(g.mana()), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k.implicit()}}}
	in := g.addIn(o, k.implicit())
	in.bic = g.bic()
	g.hasCommit = true
	next := &iotago.AccountOutput{
		AccountID:        iotago.AccountID(blake(in.id[:])),
		UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: k.ed()}},
	}
	for range g.issuerImm() {
		f := &iotago.IssuerFeature{}
		next.ImmutableFeatures = append(next.ImmutableFeatures, f)
		g.lateFeats = append(g.lateFeats, func() { f.Address = g.unlockedAddr() })
	}
	g.newAccountFeats(next)
	if _, has := getFeat[*iotago.BlockIssuerFeature](next); !has {
		next.Features = append(next.Features, &iotago.BlockIssuerFeature{ExpirySlot: g.farSlot(), BlockIssuerKeys: g.keys1()})
	}
	g.addOut(next)
	g.issuers = append(g.issuers, vmLink{in, next})
	g.note("implicit-to-account")
}

func (g *vmGen) mvFoundries() {
	r := g.r
	in, cur, next := g.mvAccountState()
	_ = cur
	acc := iotago.AccountAddress(next.AccountID)
	uc := func() iotago.FoundryOutputUnlockConditions {
		a := acc

		return iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &a}}
	}
	counter := next.FoundryCounter
	create := r.Intn(3)
	for i := 0; i < create && next.FoundryCounter < 1<<32-1; i++ {
		next.FoundryCounter++
		minted := new(big.Int)
		if !coin(r, 3) {
			minted = g.ntAmount()
		}
		max := new(big.Int).Add(minted, big.NewInt(int64(r.Intn(3))))
		if max.Sign() == 0 {
			max.SetInt64(1)
		}
		f := &iotago.FoundryOutput{SerialNumber: next.FoundryCounter, UnlockConditions: uc(), TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: minted, MeltedTokens: new(big.Int), MaximumSupply: max}}
		if coin(r, 3) {
			f.ImmutableFeatures = iotago.FoundryOutputImmFeatures{metaFeat(r)}
		}
		if coin(r, 3) {
			f.Features = append(f.Features, metaFeat(r))
		}
		rest := minted
		if minted.Sign() > 0 && coin(r, 2) {
			f.Features = append(f.Features, &iotago.NativeTokenFeature{ID: refFoundryID(f), Amount: new(big.Int).Set(minted)})
			rest = new(big.Int)
		}
		g.addOut(f)
		g.ntOut(refFoundryID(f), rest)
		g.note("foundry-genesis")
	}
	// existing foundries of the account
	if counter == 0 {
		return
	}
	for n := r.Intn(3); n > 0; n-- {
		serial := uint32(n)
		if serial > counter {
			continue
		}
		melted := big.NewInt(int64(r.Intn(5)))
		circ := new(big.Int)
		if !coin(r, 3) {
			circ = g.ntAmount()
		}
		minted := new(big.Int).Add(melted, circ)
		max := new(big.Int).Add(circ, big.NewInt(int64(1+r.Intn(100))))
		if max.BitLen() > 256 || minted.BitLen() > 255 {
			continue
		}
		f := &iotago.FoundryOutput{Amount: iotago.BaseToken(g.amount()), SerialNumber: serial, UnlockConditions: uc(), TokenScheme: &iotago.SimpleTokenScheme{MintedTokens: minted, MeltedTokens: melted, MaximumSupply: max}}
		if coin(r, 2) {
			f.ImmutableFeatures = iotago.FoundryOutputImmFeatures{metaFeat(r)}
		}
		id := refFoundryID(f)
		// part of the circulating supply is on the input side
		have := bigBelow(r, circ)
		destroy := coin(r, 4)
		if destroy {
			have = circ
		}
		rest := new(big.Int).Set(have)
		if have.Sign() > 0 && coin(r, 2) {
			f.Features = append(f.Features, &iotago.NativeTokenFeature{ID: id, Amount: new(big.Int).Set(have)})
			rest = new(big.Int)
		}
		a := acc
		g.addIn(f, &a)
		_ = in
		g.ntIn(id, rest)
		g.tokens = append(g.tokens, id)
		if destroy {
			g.caps[4] = true
			if circ.Sign() > 0 {
				g.caps[0] = true
			}
			g.note("foundry-destroy")

			continue
		}
		dm, db := new(big.Int), new(big.Int)
		switch r.Intn(3) {
		case 0:
			dm = bigBelow(r, new(big.Int).Sub(max, circ))
			g.note("mint")
		case 1:
			db = bigBelow(r, have)
			g.note("melt")
		}
		nf := &iotago.FoundryOutput{SerialNumber: serial, UnlockConditions: uc(), ImmutableFeatures: f.ImmutableFeatures.Clone(), TokenScheme: &iotago.SimpleTokenScheme{
			MintedTokens: new(big.Int).Add(minted, dm), MeltedTokens: new(big.Int).Add(melted, db), MaximumSupply: new(big.Int).Set(max),
		}}
		out := new(big.Int).Add(have, dm)
		out.Sub(out, db)
		if out.Sign() > 0 && coin(r, 2) {
			nf.Features = append(nf.Features, &iotago.NativeTokenFeature{ID: id, Amount: out})
			out = new(big.Int)
		}
		g.addOut(nf)
		g.ntOut(id, out)
		g.note("foundry-state")
	}
}

func (g *vmGen) mvNFT() {
	r := g.r
	mk := func() *iotago.NFTOutput {
		o := &iotago.NFTOutput{}
		if coin(r, 4) {
			o.Features = append(o.Features, metaFeat(r))
		}
		if coin(r, 4) {
			o.Features = append(o.Features, &iotago.TagFeature{Tag: rbytes(r, 1+r.Intn(5))})
		}

		return o
	}
	if coin(r, 3) {
		o := mk()
		o.UnlockConditions = iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: g.dest()}}
		for range g.issuerImm() {
			f := &iotago.IssuerFeature{}
			o.ImmutableFeatures = append(o.ImmutableFeatures, f)
			g.lateFeats = append(g.lateFeats, func() { f.Address = g.unlockedAddr() })
		}
		g.lateSender(func(f *iotago.SenderFeature) { o.Features = append(iotago.NFTOutputFeatures{f}, o.Features...) })
		g.addOut(o)
		g.note("nft-genesis")

		return
	}
	cur := mk()
	owner := g.owner()
	cur.Amount, cur.Mana = iotago.BaseToken(g.amount()), iotago.Mana(g.mana())
	g.timeUCs(owner, func(u iotago.UnlockCondition) {
		cur.UnlockConditions = append(cur.UnlockConditions, u.(iotago.NFTOutputUnlockCondition))
	})
	if !coin(r, 3) {
		cur.NFTID = iotago.NFTID(r32(r))
	}
	if coin(r, 2) {
		cur.ImmutableFeatures = append(cur.ImmutableFeatures, &iotago.IssuerFeature{Address: genDirectAddr(r)})
	}
	if coin(r, 2) {
		cur.ImmutableFeatures = append(cur.ImmutableFeatures, metaFeat(r))
	}
	in := g.addIn(cur, owner)
	g.chainAddrUnlocked(in)
	if coin(r, 3) {
		g.caps[5] = true
		g.note("nft-destroy")

		return
	}
	n := mk()
	n.NFTID = iotago.NFTID(refChain32(cur.NFTID, in.id))
	n.ImmutableFeatures = cur.ImmutableFeatures.Clone()
	n.UnlockConditions = iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: g.dest()}}
	if a, is := addrUC(n).(*iotago.NFTAddress); is && [32]byte(*a) == [32]byte(n.NFTID) {
		n.UnlockConditions[0].(*iotago.AddressUnlockCondition).Address = g.keys[0].ed()
	}
	g.lateSender(func(f *iotago.SenderFeature) { n.Features = append(iotago.NFTOutputFeatures{f}, n.Features...) })
	g.addOut(n)
	g.note("nft-state")
}

func (g *vmGen) mvAnchor() {
	r := g.r
	ucs := func(s, gov iotago.Address) iotago.AnchorOutputUnlockConditions {
		return iotago.AnchorOutputUnlockConditions{&iotago.StateControllerAddressUnlockCondition{Address: s}, &iotago.GovernorAddressUnlockCondition{Address: gov}}
	}
	if coin(r, 4) {
		o := &iotago.AnchorOutput{UnlockConditions: ucs(g.dest(), g.dest())}
		for range g.issuerImm() {
			f := &iotago.IssuerFeature{}
			o.ImmutableFeatures = append(o.ImmutableFeatures, f)
			g.lateFeats = append(g.lateFeats, func() { f.Address = g.unlockedAddr() })
		}
		if coin(r, 2) {
			o.Features = append(o.Features, metaFeat(r))
		}
		if coin(r, 2) {
			o.Features = append(o.Features, stateMetaFeat(r))
		}
		g.addOut(o)
		g.note("anchor-genesis")

		return
	}
	cur := &iotago.AnchorOutput{Amount: iotago.BaseToken(g.amount()), Mana: iotago.Mana(g.mana())}
	if !coin(r, 4) {
		cur.AnchorID = iotago.AnchorID(r32(r))
		cur.StateIndex = uint32(r.Intn(3))
		if coin(r, 8) {
			cur.StateIndex = 1<<32 - 2
		}
	}
	if coin(r, 2) {
		cur.Features = append(cur.Features, metaFeat(r))
	}
	if coin(r, 2) {
		cur.Features = append(cur.Features, stateMetaFeat(r))
	}
	if coin(r, 3) {
		cur.ImmutableFeatures = append(cur.ImmutableFeatures, &iotago.IssuerFeature{Address: genDirectAddr(r)})
	}
	owner := g.owner()
	kind := r.Intn(4)
	sc, gov := g.dest(), g.dest()
	if kind >= 2 {
		sc = owner
	} else {
		gov = owner
	}
	cur.UnlockConditions = ucs(sc, gov)
	in := g.addIn(cur, owner)
	if kind == 0 {
		g.caps[3] = true
		g.note("anchor-destroy")

		return
	}
	n := cur.Clone().(*iotago.AnchorOutput)
	n.AnchorID = iotago.AnchorID(refChain32(cur.AnchorID, in.id))
	n.Mana = 0
	n.Features = nil
	m, has := getFeat[*iotago.MetadataFeature](cur)
	sm, hasS := getFeat[*iotago.StateMetadataFeature](cur)
	if kind == 1 { // governor
		if coin(r, 2) {
			n.Features = append(n.Features, metaFeat(r))
		}
		if hasS {
			n.Features = append(n.Features, sm.Clone().(*iotago.StateMetadataFeature))
		}
		n.UnlockConditions = ucs(g.dest(), g.dest())
		for i := 0; i < 2; i++ {
			if a, is := anchorAddr(n, 4+i).(*iotago.AnchorAddress); is && [32]byte(*a) == [32]byte(n.AnchorID) {
				n.UnlockConditions = ucs(g.keys[0].ed(), g.keys[1].ed())
			}
		}
		g.addOut(n)
		g.afterAmount = append(g.afterAmount, func() { cur.Amount = n.Amount })
		g.note("anchor-governance")

		return
	}
	if has {
		n.Features = append(n.Features, m.Clone().(*iotago.MetadataFeature))
	}
	if coin(r, 2) {
		n.Features = append(n.Features, stateMetaFeat(r))
	}
	n.StateIndex++
	g.addOut(n)
	g.chainAddrUnlocked(in)
	g.note("anchor-state")
}

func (g *vmGen) mvDelegation() {
	r := g.r
	g.hasCommit = true
	validator := func() *iotago.AccountAddress {
		a := iotago.AccountAddress(r32(r))
		a[5] |= 1

		return &a
	}
	switch r.Intn(3) {
	case 0:
		e := g.clk.epoch(g.past)
		start := e + 1
		if g.past > g.clk.end(e)-uint64(g.w.PP.EpochNearingThreshold()) {
			start++
		}
		o := &iotago.DelegationOutput{StartEpoch: iotago.EpochIndex(start), ValidatorAddress: validator(), UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: g.dest()}}}
		g.addOut(o)
		g.afterAmount = append(g.afterAmount, func() { o.DelegatedAmount = o.Amount })
		g.note("delegation-genesis")
	case 1:
		e := g.clk.epoch(g.future)
		if g.future > g.clk.end(e)-uint64(g.w.PP.EpochNearingThreshold()) {
			e++
		}
		owner := g.owner()
		o := &iotago.DelegationOutput{Amount: iotago.BaseToken(g.amount()), StartEpoch: iotago.EpochIndex(r.Intn(int(e) + 2)), ValidatorAddress: validator(), UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: owner}}}
		o.DelegatedAmount = o.Amount
		in := g.addIn(o, owner)
		n := o.Clone().(*iotago.DelegationOutput)
		n.DelegationID = iotago.DelegationID(blake(in.id[:]))
		n.EndEpoch = iotago.EpochIndex(e)
		n.UnlockConditions = iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: g.dest()}}
		g.addOut(n)
		g.note("delegation-delayed")
	default:
		owner := g.owner()
		o := &iotago.DelegationOutput{Amount: iotago.BaseToken(g.amount()), StartEpoch: iotago.EpochIndex(r.Intn(20)), EndEpoch: iotago.EpochIndex(r.Intn(30)), ValidatorAddress: validator(), UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: owner}}}
		o.DelegatedAmount = o.Amount
		if coin(r, 2) {
			o.DelegationID = iotago.DelegationID(r32(r))
		}
		in := g.addIn(o, owner)
		in.reward = g.reward()
		g.note("delegation-destroy")
	}
}

// ---- balancing ----

func (g *vmGen) inTotal() (t uint64) {
	for _, i := range g.ins {
		t += refAmount(i.o)
	}

	return t
}

func (g *vmGen) outTotal() (t uint64) {
	for _, o := range g.outs {
		t += refAmount(o)
	}

	return t
}

func (g *vmGen) scene(ins []*vmIn) *vmScene { return &vmScene{w: g.w, ids: nil} }

// build completes the scene. It returns false if the scene is not usable.
func (g *vmGen) build() bool {
	r := g.r
	if len(g.ins) == 0 {
		g.mvBasic()
	}
	for n := r.Intn(2); n > 0; n-- {
		g.basicOut()
	}
	// storage deposits to return
	var oks []string
	for k := range g.owed {
		oks = append(oks, k)
	}
	sort.Strings(oks)
	for _, k := range oks {
		ow := g.owed[k]
		parts := 1 + r.Intn(2)
		left := ow.amount
		for i := 0; i < parts; i++ {
			o := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: ow.addr.Clone()}}}
			g.outs = append(g.outs, o)
			amount := left
			if i+1 < parts {
				amount = left / 2
			}
			if m := refMinDeposit(g.w.PP.StorageScoreParameters(), o).Uint64(); amount < m {
				amount = m
			}
			o.Amount = iotago.BaseToken(amount)
			left -= min(left, amount)
			if left == 0 {
				break
			}
		}
	}
	for _, f := range g.lateFeats {
		f()
	}
	sp := g.w.PP.StorageScoreParameters()
	for _, o := range g.outs {
		if e, has := g.extra[o]; has {
			refSetAmount(o, refMinDeposit(sp, o).Uint64()+e)
		}
	}
	for _, f := range g.afterAmount {
		f()
	}
	// fund the outputs and return the rest
	dest := g.keys[r.Intn(4)].ed()
	rest := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: dest}}}
	minRest := refMinDeposit(sp, rest).Uint64()
	if in, out := g.inTotal(), g.outTotal(); in != out && in < out+minRest {
		need := out - min(out, in)
		owner := iotago.Address(g.keys[r.Intn(4)].ed())
		f := &iotago.BasicOutput{Mana: iotago.Mana(g.mana()), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: owner}}}
		f.Amount = iotago.BaseToken(need)
		if in > out || coin(r, 2) {
			f.Amount += iotago.BaseToken(minRest + uint64(r.Intn(1000)))
		}
		x := &vmIn{id: g.newInID(), o: f}
		if coin(r, 2) && !g.usedImplicit {
			g.ins = append([]*vmIn{x}, g.ins...)
		} else {
			g.ins = append(g.ins, x)
		}
		g.owners = append(g.owners, owner)
	}
	if in, out := g.inTotal(), g.outTotal(); in > out {
		if in-out < minRest {
			return false
		}
		rest.Amount = iotago.BaseToken(in - out)
		g.outs = append(g.outs, rest)
	}
	if len(g.outs) == 0 || len(g.ins) > 120 || len(g.outs) > 120 {
		return false
	}
	for _, o := range g.outs {
		if needsCommitment(iotago.TxEssenceOutputs{o}) {
			g.hasCommit = true
		}
	}
	for _, i := range g.ins {
		if i.reward != nil || i.bic != nil {
			g.hasCommit = true
		}
	}

	// mana
	mr := manaOf(g.w.PP)
	own := func(i *vmIn) uint64 {
		slot := refIDSlot(i.id)
		s := mr.decaySlots(bi(refStoredMana(i.o)), slot, g.create)
		p := refPotentialMana(g.w.PP, i.o, iotago.SlotIndex(slot), iotago.SlotIndex(g.create))

		return s.Add(s, p).Uint64()
	}
	total := uint64(0)
	for _, i := range g.ins {
		total += own(i)
		if i.reward != nil {
			total += *i.reward
		}
	}
	if total >= uint64(1)<<g.w.PP.ManaParameters().BitsCount {
		return false
	}
	free := total
	for _, l := range g.issuers {
		m := own(l.in)
		if k := r.Intn(3); k == 0 && m > 0 { // allot a part
			x := uint64(r.Int63n(int64(m) + 1))
			g.allot[l.out.AccountID] += x
			l.out.Mana += iotago.Mana(m - x)
		} else if k == 1 && m > 0 { // lock a part
			x := uint64(r.Int63n(int64(m) + 1))
			a := iotago.AccountAddress(l.out.AccountID)
			lock := iotago.SlotIndex(g.past) + g.w.PP.MaxCommittableAge() + 1 + iotago.SlotIndex(r.Intn(3))
			o := &iotago.BasicOutput{Mana: iotago.Mana(x), UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: &a}, &iotago.TimelockUnlockCondition{Slot: lock}}}
			o.Amount = iotago.BaseToken(refMinDeposit(sp, o).Uint64())
			// taken from the largest output
			if !g.take(uint64(o.Amount), rest) {
				l.out.Mana += iotago.Mana(m)
			} else {
				g.outs = append(g.outs, o)
				l.out.Mana += iotago.Mana(m - x)
				g.note("mana-locked")
			}
		} else {
			l.out.Mana += iotago.Mana(m)
		}
		free -= m
	}
	if coin(r, 4) && free > 0 {
		free = uint64(r.Int63n(int64(free)))
		g.caps[1] = true
		g.note("mana-burn")
	}
	var sinks []iotago.TxEssenceOutput
	for _, o := range g.outs {
		before := refStoredMana(o)
		refSetMana(o, before+1)
		ok := refStoredMana(o) == before+1 && ucsAllow(o)
		refSetMana(o, before)
		if b, is := o.(*iotago.BasicOutput); ok && is {
			_ = b
		}
		if ok {
			sinks = append(sinks, o)
		}
	}
	for n := r.Intn(3); n > 0 && free > 0 && len(sinks) > 0; n-- {
		x := uint64(r.Int63n(int64(free) + 1))
		o := sinks[r.Intn(len(sinks))]
		refSetMana(o, refStoredMana(o)+x)
		free -= x
	}
	if free > 0 {
		switch {
		case coin(r, 3) || len(sinks) == 0:
			id := iotago.AccountID(r32(r))
			if len(g.issuers) > 0 && coin(r, 2) {
				id = g.issuers[r.Intn(len(g.issuers))].out.AccountID
			}
			g.allot[id] += free
			g.hasCommit = true
			g.note("allotment")
		default:
			o := sinks[r.Intn(len(sinks))]
			refSetMana(o, refStoredMana(o)+free)
		}
	}
	for range g.allot {
		g.hasCommit = true
	}
	if coin(r, 10) {
		g.hasCommit = true
	}
	// permissions which are not needed
	for b := 0; b < 6; b++ {
		if coin(r, 12) {
			g.caps[b] = true
		}
	}
	// shuffle the outputs, keep new foundries in order
	r.Shuffle(len(g.outs), func(i, j int) { g.outs[i], g.outs[j] = g.outs[j], g.outs[i] })
	var pos []int
	var fs []*iotago.FoundryOutput
	for i, o := range g.outs {
		if f, is := o.(*iotago.FoundryOutput); is {
			pos, fs = append(pos, i), append(fs, f)
		}
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].SerialNumber < fs[j].SerialNumber })
	for i, p := range pos {
		g.outs[p] = fs[i]
	}

	return true
}

func ucsAllow(o iotago.TxEssenceOutput) bool {
	for _, u := range refUCList(o) {
		switch u := u.(type) {
		case *iotago.AddressUnlockCondition:
			if refAddrRestrictions(o, u.Address) != "" {
				return false
			}
		case *iotago.ExpirationUnlockCondition:
			if refAddrRestrictions(o, u.ReturnAddress) != "" {
				return false
			}
		case *iotago.StateControllerAddressUnlockCondition:
			if refAddrRestrictions(o, u.Address) != "" {
				return false
			}
		case *iotago.GovernorAddressUnlockCondition:
			if refAddrRestrictions(o, u.Address) != "" {
				return false
			}
		}
	}

	return true
}

// take moves base tokens away from the remainder output.
func (g *vmGen) take(amount uint64, rest *iotago.BasicOutput) bool {
	sp := g.w.PP.StorageScoreParameters()
	if uint64(rest.Amount) < amount+refMinDeposit(sp, rest).Uint64() {
		return false
	}
	rest.Amount -= iotago.BaseToken(amount)

	return true
}

// assemble makes the signed transaction and the resolved inputs.
func (g *vmGen) assemble() *vmScene {
	r := g.r
	sc := &vmScene{w: g.w, bic: map[iotago.AccountID]int64{}, rewards: map[int]uint64{}, kinds: g.kinds}
	e := &iotago.TransactionEssence{NetworkID: refNetworkID(g.w), CreationSlot: iotago.SlotIndex(g.create), Allotments: iotago.Allotments{}, ContextInputs: iotago.TxEssenceContextInputs{}}
	if g.hasCommit {
		c := genCommitment(r)
		c.Slot = iotago.SlotIndex(g.commit)
		c.ProtocolVersion = g.w.PP.Version()
		sc.commitment = c
		e.ContextInputs = append(e.ContextInputs, &iotago.CommitmentInput{CommitmentID: iotago.CommitmentID(refCommitmentID(c))})
	}
	var bics []iotago.AccountID
	for i, in := range g.ins {
		sc.ids = append(sc.ids, in.id)
		sc.ins = append(sc.ins, in.o)
		e.Inputs = append(e.Inputs, &iotago.UTXOInput{TransactionID: iotago.TransactionID(in.id[:36]), TransactionOutputIndex: uint16(in.id[36]) | uint16(in.id[37])<<8})
		if in.bic != nil {
			k, _ := chainOf(in.o, in.id)
			if len(k) == 7+32 && k[:7] == "account" {
				id := iotago.AccountID([]byte(k[7:]))
				bics = append(bics, id)
				sc.bic[id] = *in.bic
			}
		}
		if in.reward != nil {
			switch in.o.(type) {
			case *iotago.AccountOutput, *iotago.DelegationOutput:
				sc.rewards[i] = *in.reward
			}
		}
	}
	sort.Slice(bics, func(i, j int) bool { return bytes.Compare(bics[i][:], bics[j][:]) < 0 })
	for _, b := range bics {
		e.ContextInputs = append(e.ContextInputs, &iotago.BlockIssuanceCreditInput{AccountID: b})
	}
	for i := range g.ins {
		if _, has := sc.rewards[i]; has {
			e.ContextInputs = append(e.ContextInputs, &iotago.RewardInput{Index: uint16(i)})
		}
	}
	for id, m := range g.allot {
		e.Allotments = append(e.Allotments, &iotago.Allotment{AccountID: id, Mana: iotago.Mana(m)})
	}
	sort.Slice(e.Allotments, func(i, j int) bool {
		return bytes.Compare(e.Allotments[i].AccountID[:], e.Allotments[j].AccountID[:]) < 0
	})
	var caps byte
	for b, set := range g.caps {
		if set {
			caps |= 1 << b
		}
	}
	if caps != 0 {
		e.Capabilities = iotago.TransactionCapabilitiesBitMask{caps}
	}
	tx := &iotago.Transaction{API: g.w.API, TransactionEssence: e, Outputs: append(iotago.TxEssenceOutputs{}, g.outs...)}
	sc.stx = &iotago.SignedTransaction{API: g.w.API, Transaction: tx}
	g.unlock(sc)

	return sc
}

func refOutChains(tx *iotago.Transaction) map[string]iotago.Output {
	txID := refTxID(tx)
	m := map[string]iotago.Output{}
	for i, o := range tx.Outputs {
		if _, is := o.(*iotago.BasicOutput); is {
			continue
		}
		k, _ := chainOf(o, refOutputID(txID, uint16(i)))
		m[k] = o
	}

	return m
}

// unlock creates the unlocks. Inputs which cannot be unlocked get some signature.
func (g *vmGen) unlock(sc *vmScene) {
	tx := sc.stx.Transaction
	msg := blake(refTx(tx))
	outChains := refOutChains(tx)
	st := &refUnlockState{sigAt: map[int][]byte{}, at: map[string]int{}, unlocker: make([]string, len(sc.ins))}
	sc.stx.Unlocks = make(iotago.Unlocks, len(sc.ins))
	multiAt := map[int]bool{}
	sign := func(a iotago.Address) *iotago.SignatureUnlock {
		k := g.known(a)
		if k < 0 {
			k = 12
		}

		return &iotago.SignatureUnlock{Signature: g.keys[k].sign(msg[:])}
	}
	sigIndex := func(a iotago.Address) int {
		best := -1
		for i, pub := range st.sigAt {
			h := blake(pub)
			if akey(a)[1:] == string(h[:]) {
				best = i
			}
		}

		return best
	}
	chainUnlock := func(a iotago.Address, at int) iotago.Unlock {
		switch akey(a)[0] {
		case 8:
			return &iotago.AccountUnlock{Reference: uint16(at)}
		case 16:
			return &iotago.NFTUnlock{Reference: uint16(at)}
		}

		return &iotago.AnchorUnlock{Reference: uint16(at)}
	}
	for i, o := range sc.ins {
		owner, reason := refOwner(sc, outChains, i, o, g.past, g.future)
		if owner == nil {
			// nobody can unlock it: the owner, the return address or somebody else tries to
			exp, has := getUC[*iotago.ExpirationUnlockCondition](o)
			switch g.r.Intn(5) {
			case 0, 1:
				owner = addrUC(o)
			case 2, 3:
				if has {
					owner = exp.ReturnAddress
				}
			}
			if owner == nil {
				owner = g.keys[0].ed()
			}
			owner = underlying(owner)
		}
		var u iotago.Unlock
		switch owner := owner.(type) {
		case *iotago.AccountAddress, *iotago.AnchorAddress, *iotago.NFTAddress:
			at, has := st.at[akey(owner)]
			if !has {
				// not unlocked, but it may be there
				for j := range sc.ins {
					if _, a := chainOf(sc.ins[j], sc.ids[j]); a != nil && akey(a) == akey(owner) && j < i {
						at = j
					}
				}
			}
			u = chainUnlock(owner, at)
		case *iotago.MultiAddress:
			if at, has := st.at[akey(owner)]; has {
				u = &iotago.ReferenceUnlock{Reference: uint16(at)}

				break
			}
			m := &iotago.MultiUnlock{}
			sum := 0
			for _, x := range owner.Addresses {
				var s iotago.Unlock = &iotago.EmptyUnlock{}
				switch a := x.Address.(type) {
				case *iotago.Ed25519Address:
					if at := sigIndex(a); at >= 0 {
						s = &iotago.ReferenceUnlock{Reference: uint16(at)}
					} else if g.known(a) >= 0 {
						s = sign(a)
					}
				default:
					if at, has := st.at[akey(a)]; has && !multiAt[at] {
						s = chainUnlock(a, at)
					}
				}
				if _, empty := s.(*iotago.EmptyUnlock); !empty {
					if sum >= int(owner.Threshold) && coin(g.r, 2) {
						s = &iotago.EmptyUnlock{}
					} else {
						sum += int(x.Weight)
					}
				}
				m.Unlocks = append(m.Unlocks, s)
			}
			u = m
			multiAt[i] = true
		default:
			if at := sigIndex(owner); at >= 0 {
				u = &iotago.ReferenceUnlock{Reference: uint16(at)}
			} else {
				u = sign(owner)
			}
		}
		sc.stx.Unlocks[i] = u
		if reason != "" {
			continue
		}
		if refUnlockAddr(st, owner, u, i, msg[:], false) == "" {
			if k, a := chainOf(o, sc.ids[i]); a != nil {
				if an, is := o.(*iotago.AnchorOutput); is {
					next, has := outChains[k].(*iotago.AnchorOutput)
					if !has || next.StateIndex != an.StateIndex+1 {
						continue
					}
				}
				st.at[akey(a)] = i
			}
		}
	}
}

var vmMoves = []func(g *vmGen){
	(*vmGen).mvBasic, (*vmGen).mvBasic, (*vmGen).mvToken, (*vmGen).mvAccountGenesis, func(g *vmGen) { g.mvAccountState() },
	(*vmGen).mvAccountDestroy, (*vmGen).mvImplicit, (*vmGen).mvFoundries, (*vmGen).mvNFT, (*vmGen).mvNFT, (*vmGen).mvAnchor, (*vmGen).mvAnchor, (*vmGen).mvDelegation,
}

// genVM generates the parts of a scene; only lists the moves to prefer.
func genVM(r *rand.Rand, prefer ...func(g *vmGen)) *vmGen {
	for {
		g := newVMGen(r)
		for _, p := range prefer {
			if coin(r, 2) {
				p(g)
			}
		}
		n := 1 + r.Intn(4)
		switch r.Intn(10) {
		case 0:
			n = 5 + r.Intn(8)
		case 1, 2:
			// small scenes in which single parts can be missed
			g = newVMGen(r)
			n = 1
			if len(prefer) > 0 {
				prefer[r.Intn(len(prefer))](g)
				n = r.Intn(2)
			}
		}
		for i := 0; i < n; i++ {
			vmMoves[r.Intn(len(vmMoves))](g)
		}
		if g.build() {
			return g
		}
	}
}

// vmUndecided tells whether a scene cannot occur in a node, or leaves the specified area.
func vmUndecided(sc *vmScene) string {
	tx := sc.stx.Transaction
	if reason := refSignedTxDecodes(sc.w, sc.stx); reason != "" {
		return "syntax: " + reason
	}
	chains := map[string]bool{}
	supply := new(big.Int)
	for i, o := range sc.ins {
		supply.Add(supply, bi(refAmount(o)))
		if k, _ := chainOf(o, sc.ids[i]); k != "" {
			if chains[k] {
				return "chain twice on the input side"
			}
			chains[k] = true
		}
		if s := refOutputStruct(o); s != "" {
			return "input: " + s
		}
		if f, has := getFeat[*iotago.NativeTokenFeature](o); has && f.Amount.Sign() <= 0 {
			return "input: no native tokens"
		}
		if refIDSlot(sc.ids[i]) < clockOf(sc.w.PP).genesisSlot {
			return "input before genesis"
		}
		for _, u := range refUCList(o) {
			if u, is := u.(*iotago.StorageDepositReturnUnlockCondition); is {
				if uint64(u.Amount) > refAmount(o) {
					return "input: returns more than it holds"
				}
				if _, res := u.ReturnAddress.(*iotago.RestrictedAddress); res || isImplicit(u.ReturnAddress) {
					return "sdr address"
				}
				if _, a := chainOf(o, sc.ids[i]); a != nil && akey(a) == akey(u.ReturnAddress) {
					return "sdr to itself"
				}
			}
		}
		if b, is := o.(*iotago.BasicOutput); is && isImplicit(addrUC(b)) && refAddrRestrictions(o, addrUC(b)) != "" {
			return "implicit account with conditions"
		}
		if f, is := o.(*iotago.FoundryOutput); is {
			ts := f.TokenScheme.(*iotago.SimpleTokenScheme)
			if circ := new(big.Int).Sub(ts.MintedTokens, ts.MeltedTokens); circ.Sign() < 0 || circ.Cmp(ts.MaximumSupply) > 0 {
				return "foundry"
			}
		}
	}
	if supply.Cmp(bi(uint64(sc.w.PP.TokenSupply()))) > 0 {
		return "supply"
	}
	out := refOutChains(tx)
	for k, o := range out {
		if f, is := o.(*iotago.FoundryOutput); is {
			acc := "account" + akey(addrUC(f))[1:]
			if chains[k] && out[acc] == nil {
				return "foundry kept without its account"
			}
		}
	}
	for i, o := range sc.ins {
		k, _ := chainOf(o, sc.ids[i])
		if _, is := o.(*iotago.BasicOutput); is && k != "" {
			if n, is := out[k].(*iotago.AccountOutput); is && n.FoundryCounter != 0 {
				return "implicit account with foundry counter"
			}
		}
	}
	// anchors and implicit accounts have no rewards; foundry tokens cannot exist before their foundry
	for k, o := range out {
		if _, is := o.(*iotago.FoundryOutput); is && !chains[k] {
			for _, i := range sc.ins {
				if f, has := getFeat[*iotago.NativeTokenFeature](i); has && "foundry"+string(f.ID[:]) == k {
					return "tokens older than their foundry"
				}
			}
		}
	}

	return ""
}

// ---- mutations ----

func numericLeaves(v reflect.Value, path string, f func(path string, v reflect.Value)) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() || v.Type() == apiType {
			return
		}
		if v.Kind() == reflect.Pointer && v.Type().Elem() == bigType {
			f(path, v)

			return
		}
		numericLeaves(v.Elem(), path, f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				numericLeaves(v.Field(i), path+"."+v.Type().Field(i).Name, f)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			numericLeaves(v.Index(i), path+"[]", f)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			f(path, v)
		}
	}
}

// mutNumber changes one number of one input or output a little.
func mutNumber(g *vmGen) string {
	r := g.r
	type leaf struct {
		path string
		v    reflect.Value
	}
	var ls []leaf
	add := func(p string) func(path string, v reflect.Value) {
		return func(path string, v reflect.Value) { ls = append(ls, leaf{p + path, v}) }
	}
	for _, o := range g.outs {
		numericLeaves(reflect.ValueOf(o), reflect.TypeOf(o).Elem().Name(), add("out:"))
	}
	for _, i := range g.ins {
		numericLeaves(reflect.ValueOf(i.o), reflect.TypeOf(i.o).Elem().Name(), add("in:"))
	}
	// choose a field first so that rare fields are as likely as frequent ones
	byPath := map[string][]reflect.Value{}
	var paths []string
	for _, l := range ls {
		if byPath[l.path] == nil {
			paths = append(paths, l.path)
		}
		byPath[l.path] = append(byPath[l.path], l.v)
	}
	if len(paths) == 0 {
		return ""
	}
	sort.Strings(paths)
	p := paths[r.Intn(len(paths))]
	v := byPath[p][r.Intn(len(byPath[p]))]
	d := int64(1 + r.Intn(2))
	if coin(r, 3) {
		d = int64(r.Intn(1 << 16))
	}
	if coin(r, 2) {
		d = -d
	}
	if v.Kind() == reflect.Pointer {
		x := v.Interface().(*big.Int)
		x.Add(x, big.NewInt(d))
		if x.Sign() < 0 || x.BitLen() > 256 {
			x.SetInt64(1)
		}
	} else if coin(r, 8) {
		v.SetUint([]uint64{0, 1, uint64(g.commit), uint64(g.past), uint64(g.future), g.clk.epoch(g.past), g.clk.epoch(g.future)}[r.Intn(7)] & (1<<v.Type().Bits() - 1))
	} else {
		v.SetUint(uint64(int64(v.Uint())+d) & (1<<v.Type().Bits() - 1))
	}

	return "number " + p
}

func (g *vmGen) someAddr() iotago.Address {
	r := g.r
	switch r.Intn(8) {
	case 0:
		return g.keys[r.Intn(len(g.keys))].ed()
	case 5: // the chain of any input, unlocked or not
		in := g.ins[r.Intn(len(g.ins))]
		if k, a := chainOf(in.o, in.id); a != nil {
			return a.Clone()
		} else if k != "" && isImplicit(addrUC(in.o)) {
			x := iotago.AccountAddress(blake(in.id[:]))

			return &x
		}
	case 6: // the member of a multi address
		if len(g.multis) > 0 {
			m := g.multis[r.Intn(len(g.multis))]

			return m.Addresses[r.Intn(len(m.Addresses))].Address.Clone()
		}
	case 7: // the other address of an output with two
		in := g.ins[r.Intn(len(g.ins))]
		if e, has := getUC[*iotago.ExpirationUnlockCondition](in.o); has {
			if coin(r, 2) {
				return e.ReturnAddress.Clone()
			}

			if a := addrUC(in.o); a != nil {
				return a.Clone()
			}
		}
		if e, has := getUC[*iotago.GovernorAddressUnlockCondition](in.o); has {
			if c, has := getUC[*iotago.StateControllerAddressUnlockCondition](in.o); has && coin(r, 2) {
				return c.Address.Clone()
			}

			return e.Address.Clone()
		}
	case 1:
		if len(g.chains) > 0 {
			return g.chains[r.Intn(len(g.chains))].Clone()
		}
	case 2:
		if len(g.owners) > 0 {
			return g.owners[r.Intn(len(g.owners))].Clone()
		}
	case 3:
		if len(g.multis) > 0 {
			return g.multis[r.Intn(len(g.multis))].Clone()
		}
	}

	return genDirectAddr(r)
}

// mutRogue gives an input to the chain of another input, whether that one unlocks it or not.
func mutRogue(g *vmGen) string {
	r := g.r
	var from []*vmIn
	for _, in := range g.ins {
		if _, a := chainOf(in.o, in.id); a != nil {
			from = append(from, in)
			if _, is := in.o.(*iotago.AnchorOutput); is {
				from = append(from, in, in, in)
			}
		}
	}
	if len(from) == 0 {
		return ""
	}
	in := from[r.Intn(len(from))]
	_, a := chainOf(in.o, in.id)
	to := g.ins[r.Intn(len(g.ins))]
	u, has := getUC[*iotago.AddressUnlockCondition](to.o)
	if !has || isImplicit(u.Address) {
		return ""
	}
	u.Address = a.Clone()
	if coin(r, 6) {
		u.Address = &iotago.RestrictedAddress{Address: u.Address, AllowedCapabilities: fullCaps(r)}
	}

	return "input given to the chain of an input"
}

// mutAddress replaces one address.
func mutAddress(g *vmGen) string {
	r := g.r
	var sites []func(a iotago.Address)
	var names []string
	collect := func(side string, o iotago.TxEssenceOutput) {
		visit(reflect.ValueOf(o), func(x any) {
			v := reflect.ValueOf(x)
			if v.Kind() != reflect.Pointer || v.IsNil() || v.Elem().Kind() != reflect.Struct {
				return
			}
			for _, n := range []string{"Address", "ReturnAddress", "ValidatorAddress"} {
				f := v.Elem().FieldByName(n)
				if f.IsValid() && f.CanSet() && f.Kind() == reflect.Interface {
					sites = append(sites, func(a iotago.Address) {
						if av := reflect.ValueOf(a); av.Type().AssignableTo(f.Type()) {
							f.Set(av)
						}
					})
					names = append(names, side+v.Elem().Type().Name()+"."+n)
				}
			}
		})
	}
	for _, o := range g.outs {
		collect("out:", o)
	}
	for _, i := range g.ins {
		collect("in:", i.o)
	}
	if len(sites) == 0 {
		return ""
	}
	i := r.Intn(len(sites))
	sites[i](g.someAddr())

	return "address " + names[i]
}

func listField(o iotago.TxEssenceOutput, name string) (reflect.Value, bool) {
	f := reflect.ValueOf(o).Elem().FieldByName(name)

	return f, f.IsValid() && f.Kind() == reflect.Slice
}

// mutFeature removes, adds or replaces a feature or an unlock condition.
func mutFeature(g *vmGen) string {
	r := g.r
	var os []iotago.TxEssenceOutput
	side := "in:"
	for _, i := range g.ins {
		os = append(os, i.o)
	}
	if coin(r, 2) {
		os, side = g.outs, "out:"
	}
	o := os[r.Intn(len(os))]
	name := []string{"Features", "ImmutableFeatures", "UnlockConditions"}[r.Intn(3)]
	f, ok := listField(o, name)
	if !ok {
		return ""
	}
	if f.Len() > 0 && coin(r, 2) && !(name == "UnlockConditions" && f.Len() == 1) {
		i := r.Intn(f.Len())
		if name == "UnlockConditions" && i == 0 {
			i = f.Len() - 1
		}
		f.Set(reflect.AppendSlice(f.Slice3(0, i, i), f.Slice(i+1, f.Len())))

		return "drop " + side + name
	}
	var cands []any
	switch name {
	case "UnlockConditions":
		cands = []any{
			&iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(pickNear(r, g.future-1, g.past+2))},
			&iotago.ExpirationUnlockCondition{Slot: iotago.SlotIndex(pickNear(r, g.future-1, g.past+2)), ReturnAddress: g.someAddr()},
			&iotago.StorageDepositReturnUnlockCondition{Amount: iotago.BaseToken(1 + r.Intn(1000)), ReturnAddress: g.someAddr()},
		}
	default:
		id := genFoundryID(r)
		if len(g.tokens) > 0 {
			id = g.tokens[r.Intn(len(g.tokens))]
		}
		cands = []any{
			&iotago.SenderFeature{Address: g.someAddr()}, &iotago.IssuerFeature{Address: g.someAddr()}, metaFeat(r), stateMetaFeat(r),
			&iotago.NativeTokenFeature{ID: id, Amount: big.NewInt(int64(1 + r.Intn(5)))}, &iotago.TagFeature{Tag: []byte{1}},
			&iotago.BlockIssuerFeature{ExpirySlot: iotago.SlotIndex(pickNear(r, g.commit-1, g.past+1)), BlockIssuerKeys: g.keys1()}, g.stakingNew(),
		}
	}
	c := reflect.ValueOf(cands[r.Intn(len(cands))])
	if !c.Type().AssignableTo(f.Type().Elem()) {
		return ""
	}
	typ := func(x reflect.Value) int {
		switch x := x.Interface().(type) {
		case iotago.Feature:
			return refFeatType(x)
		case iotago.UnlockCondition:
			return refUCType(x)
		}

		return 0
	}
	n := reflect.MakeSlice(f.Type(), 0, f.Len()+1)
	done := false
	for i := 0; i < f.Len(); i++ {
		e := f.Index(i)
		if !done && typ(e) >= typ(c) {
			n = reflect.Append(n, c)
			done = true
			if typ(e) == typ(c) {
				continue
			}
		}
		n = reflect.Append(n, e)
	}
	if !done {
		n = reflect.Append(n, c)
	}
	f.Set(n)

	return "set " + side + name + " " + c.Type().Elem().Name()
}

// mutEdge puts the time of one input on or beside the slots between which it counts.
func mutEdge(g *vmGen) string {
	r := g.r
	at := iotago.SlotIndex([]uint64{g.future, g.past}[r.Intn(2)] + uint64(r.Intn(3)))
	if at > 0 {
		at--
	}
	for _, i := range r.Perm(len(g.ins)) {
		o := g.ins[i].o
		exp, hasExp := getUC[*iotago.ExpirationUnlockCondition](o)
		tl, hasTL := getUC[*iotago.TimelockUnlockCondition](o)
		f, ok := listField(o, "UnlockConditions")
		if !ok {
			continue
		}
		if at == 0 {
			at = 1
		}
		switch {
		case hasExp && (!hasTL || coin(r, 2)):
			exp.Slot = at
		case hasTL:
			tl.Slot = at
		default:
			var c reflect.Value
			if coin(r, 4) {
				c = reflect.ValueOf(&iotago.TimelockUnlockCondition{Slot: at})
			} else {
				c = reflect.ValueOf(&iotago.ExpirationUnlockCondition{Slot: at, ReturnAddress: g.keys[r.Intn(len(g.keys))].ed()})
			}
			if !c.Type().AssignableTo(f.Type().Elem()) {
				continue
			}
			f.Set(reflect.Append(f, c))
		}
		if !coin(r, 8) {
			g.hasCommit = true
		}

		return "edge of time"
	}

	return ""
}

// mutChain breaks one rule of the transition of a chain and, where it can, no other.
func mutChain(g *vmGen) string {
	r := g.r
	type pair struct {
		in  *vmIn
		out iotago.TxEssenceOutput
	}
	var ps []pair
	for _, i := range g.ins {
		k, _ := chainOf(i.o, i.id)
		if k == "" {
			continue
		}
		for _, o := range g.outs {
			if _, is := o.(*iotago.BasicOutput); is {
				continue
			}
			if ko, _ := chainOf(o, iotago.OutputID{}); ko == k {
				ps = append(ps, pair{i, o})
			}
		}
	}
	if coin(r, 5) {
		// the periods of an account which comes in, on and beside their limits
		for _, i := range r.Perm(len(g.ins)) {
			cur, is := g.ins[i].o.(*iotago.AccountOutput)
			if !is {
				continue
			}
			bif, hasB := getFeat[*iotago.BlockIssuerFeature](cur)
			stake, hasS := getFeat[*iotago.StakingFeature](cur)
			switch fe := g.clk.epoch(g.future); {
			case hasS && (!hasB || coin(r, 2)):
				stake.EndEpoch = iotago.EpochIndex(pickNear(r, satSub(fe, 2), fe+2))
				if coin(r, 2) {
					stake.EndEpoch = iotago.EpochIndex(fe)
				}

				return "chain:staking which ends now"
			case hasB:
				bif.ExpirySlot = iotago.SlotIndex(pickNear(r, satSub(g.commit, 2), g.commit+2))

				return "chain:block issuer which expires now"
			}
		}
	}
	if len(ps) == 0 || coin(r, 6) {
		for _, i := range r.Perm(len(g.outs)) {
			switch o := g.outs[i].(type) {
			case *iotago.AccountOutput:
				if zero32(o.AccountID) {
					o.AccountID = iotago.AccountID(r32(r))

					return "chain:new account"
				}
			case *iotago.AnchorOutput:
				if zero32(o.AnchorID) {
					o.AnchorID = iotago.AnchorID(r32(r))

					return "chain:new anchor"
				}
			case *iotago.NFTOutput:
				if zero32(o.NFTID) {
					o.NFTID = iotago.NFTID(r32(r))

					return "chain:new nft"
				}
			case *iotago.DelegationOutput:
				if zero32(o.DelegationID) {
					o.DelegationID = iotago.DelegationID(r32(r))

					return "chain:new delegation"
				}
			}
		}
	}
	if len(ps) == 0 {
		return ""
	}
	p := ps[r.Intn(len(ps))]
	name := "chain:" + reflect.TypeOf(p.in.o).Elem().Name() + ":"
	if k := r.Intn(3); k == 0 {
		// the immutable features
		if f, ok := listField(p.out, "ImmutableFeatures"); ok {
			switch {
			case f.Len() > 0 && coin(r, 2):
				f.Set(f.Slice3(0, f.Len()-1, f.Len()-1))

				return name + "drop immutable"
			case f.Len() > 0:
				c := p.out.Clone()
				cf, _ := listField(c.(iotago.TxEssenceOutput), "ImmutableFeatures")
				f.Set(cf)
				switch x := f.Index(r.Intn(f.Len())).Interface().(type) {
				case *iotago.IssuerFeature:
					x.Address = g.someAddr()
				case *iotago.MetadataFeature:
					for k := range x.Entries {
						x.Entries[k] = append(append([]byte{}, x.Entries[k]...), 1)

						break
					}
				}

				return name + "change immutable"
			default:
				m := reflect.ValueOf(metaFeat(r))
				if m.Type().AssignableTo(f.Type().Elem()) {
					f.Set(reflect.Append(f, m))

					return name + "add immutable"
				}
			}
		}
	}
	toggle := func(o *iotago.AnchorOutput, meta bool) string {
		var l iotago.AnchorOutputFeatures
		had := false
		for _, f := range o.Features {
			_, isM := f.(*iotago.MetadataFeature)
			_, isS := f.(*iotago.StateMetadataFeature)
			if meta && isM || !meta && isS {
				had = true

				continue
			}
			l = append(l, f)
		}
		if !had || coin(r, 2) {
			if meta {
				l = append(iotago.AnchorOutputFeatures{metaFeat(r)}, l...)
			} else {
				l = append(l, stateMetaFeat(r))
			}
		}
		o.Features = l
		sort.SliceStable(l, func(i, j int) bool { return refFeatType(l[i]) < refFeatType(l[j]) })

		return name + "toggle metadata"
	}
	switch n := p.out.(type) {
	case *iotago.DelegationOutput:
		cur, is := p.in.o.(*iotago.DelegationOutput)
		if !is {
			return ""
		}
		switch r.Intn(7) {
		case 0, 1:
			cur.DelegationID = n.DelegationID

			return name + "twice"
		case 2:
			n.EndEpoch += iotago.EpochIndex(1 - 2*r.Intn(2))

			return name + "end epoch"
		case 3:
			n.StartEpoch += iotago.EpochIndex(1 - 2*r.Intn(2))

			return name + "start epoch"
		case 4:
			a := *n.ValidatorAddress
			a[31] ^= 1
			n.ValidatorAddress = &a

			return name + "validator"
		case 5:
			n.DelegatedAmount += iotago.BaseToken(1 - 2*r.Intn(2))

			return name + "amount"
		default:
			p.in.reward = g.reward()

			return name + "reward"
		}
	case *iotago.AnchorOutput:
		cur, is := p.in.o.(*iotago.AnchorOutput)
		if !is {
			return ""
		}
		switch r.Intn(6) {
		case 0, 1:
			// move an amount between the anchor and another output
			for _, i := range r.Perm(len(g.outs)) {
				b, is := g.outs[i].(*iotago.BasicOutput)
				if !is || b.Amount < 2 {
					continue
				}
				d := iotago.BaseToken(1 + r.Intn(2))
				if coin(r, 2) {
					n.Amount, b.Amount = n.Amount-d, b.Amount+d
				} else if b.Amount > d {
					n.Amount, b.Amount = n.Amount+d, b.Amount-d
				}

				return name + "amount"
			}

			return ""
		case 2, 3:
			return toggle(n, n.StateIndex != cur.StateIndex)
		case 4:
			n.StateIndex += uint32(1 + r.Intn(2))
			if coin(r, 2) {
				n.StateIndex = cur.StateIndex - 1
			}

			return name + "index"
		default:
			for _, u := range n.UnlockConditions {
				switch u := u.(type) {
				case *iotago.StateControllerAddressUnlockCondition:
					if coin(r, 2) {
						u.Address = g.someAddr()
					}
				case *iotago.GovernorAddressUnlockCondition:
					if coin(r, 2) {
						u.Address = g.someAddr()
					}
				}
			}

			return name + "controllers"
		}
	case *iotago.AccountOutput:
		var l iotago.AccountOutputFeatures
		k := r.Intn(5)
		switch k {
		case 0:
			n.FoundryCounter += uint32(1 - 2*r.Intn(2))

			return name + "counter"
		case 1:
			for _, f := range n.Features {
				if _, is := f.(*iotago.BlockIssuerFeature); !is {
					l = append(l, f)
				}
			}
		case 2:
			for _, f := range n.Features {
				if _, is := f.(*iotago.StakingFeature); !is {
					l = append(l, f)
				}
			}
		default:
			for _, f := range n.Features {
				switch f := f.(type) {
				case *iotago.BlockIssuerFeature:
					if k == 3 {
						f.ExpirySlot = iotago.SlotIndex(pickNear(r, g.commit, g.past))

						return name + "expiry"
					}
				case *iotago.StakingFeature:
					if k == 4 {
						switch r.Intn(4) {
						case 0:
							f.EndEpoch = iotago.EpochIndex(g.clk.epoch(g.past)) + iotago.EpochIndex(g.w.PP.StakingUnbondingPeriod()) - iotago.EpochIndex(r.Intn(3))
						case 1:
							f.StartEpoch += iotago.EpochIndex(1 - 2*r.Intn(2))
						case 2:
							f.FixedCost++
						default:
							f.StakedAmount--
						}

						return name + "staking"
					}
				}
			}

			return ""
		}
		n.Features = l

		return name + "drop feature"
	case *iotago.FoundryOutput:
		s, is := n.TokenScheme.(*iotago.SimpleTokenScheme)
		if !is {
			return ""
		}
		c := *s
		n.TokenScheme = &c
		switch r.Intn(3) {
		case 0:
			c.MaximumSupply = new(big.Int).Add(s.MaximumSupply, big.NewInt(1))
		case 1:
			c.MintedTokens = new(big.Int).Add(s.MintedTokens, big.NewInt(1))
		default:
			c.MeltedTokens = new(big.Int).Add(s.MeltedTokens, big.NewInt(1))
		}

		return name + "scheme"
	}

	return ""
}

func mutList(g *vmGen) string {
	r := g.r
	switch r.Intn(6) {
	case 0:
		if len(g.outs) < 2 {
			return ""
		}
		i := r.Intn(len(g.outs))
		name := reflect.TypeOf(g.outs[i]).Elem().Name()
		g.outs = append(g.outs[:i:i], g.outs[i+1:]...)

		return "drop output " + name
	case 1:
		if len(g.ins) < 2 {
			return ""
		}
		i := r.Intn(len(g.ins))
		name := reflect.TypeOf(g.ins[i].o).Elem().Name()
		g.ins = append(g.ins[:i:i], g.ins[i+1:]...)

		return "drop input " + name
	case 2:
		i := r.Intn(len(g.outs))
		g.outs = append(g.outs, g.outs[i].Clone().(iotago.TxEssenceOutput))

		return "duplicate output"
	case 3:
		i, j := r.Intn(len(g.outs)), r.Intn(len(g.outs))
		g.outs[i], g.outs[j] = g.outs[j], g.outs[i]

		return "swap outputs"
	case 4:
		i, j := r.Intn(len(g.ins)), r.Intn(len(g.ins))
		g.ins[i], g.ins[j] = g.ins[j], g.ins[i]

		return "swap inputs"
	default:
		i := r.Intn(len(g.outs))
		switch o := g.outs[i].(type) {
		case *iotago.AccountOutput:
			o.AccountID = iotago.AccountID{}
			o.FoundryCounter = 0
		case *iotago.AnchorOutput:
			o.AnchorID = iotago.AnchorID{}
			o.StateIndex = 0
		case *iotago.NFTOutput:
			o.NFTID = iotago.NFTID{}
		case *iotago.DelegationOutput:
			o.DelegationID = iotago.DelegationID{}
		default:
			return ""
		}

		return "empty chain ID"
	}
}

func mutTime(g *vmGen) string {
	r := g.r
	switch r.Intn(5) {
	case 0:
		g.setCommit(g.commit + 1)

		return "commitment +1"
	case 1:
		if g.commit == 0 {
			return ""
		}
		g.setCommit(g.commit - 1)

		return "commitment -1"
	case 2:
		g.hasCommit = false
		g.allot = map[iotago.AccountID]uint64{}
		for _, i := range g.ins {
			i.bic, i.reward = nil, nil
		}

		return "no commitment"
	case 3:
		g.create += uint64(r.Intn(3))
		if coin(r, 2) && g.create > 3 {
			g.create -= 3
		}

		return "creation slot"
	default:
		i := g.ins[r.Intn(len(g.ins))]
		s := g.create + uint64(r.Intn(3))
		i.id[32], i.id[33], i.id[34], i.id[35] = byte(s), byte(s>>8), byte(s>>16), byte(s>>24)

		return "input creation slot"
	}
}

func mutContext(g *vmGen) string {
	r := g.r
	var l []*vmIn
	for _, i := range g.ins {
		if i.bic != nil || i.reward != nil {
			l = append(l, i)
		}
	}
	if len(l) == 0 && g.hasCommit && coin(r, 2) {
		g.hasCommit = false

		return "no commitment"
	}
	if len(l) == 0 || coin(r, 4) {
		for _, i := range g.ins {
			switch i.o.(type) {
			case *iotago.AccountOutput, *iotago.DelegationOutput:
				i.reward = g.reward()
				g.hasCommit = true

				return "add reward"
			}
		}

		return ""
	}
	i := l[r.Intn(len(l))]
	for try := 0; try < 3 && i.reward == nil; try++ {
		i = l[r.Intn(len(l))] // rewards are rare
	}
	switch {
	case i.reward != nil && coin(r, 2):
		i.reward = nil

		return "drop reward"
	case i.bic != nil && coin(r, 2):
		*i.bic = []int64{-1, 0, -1 << 63}[r.Intn(3)]

		return "bic"
	case i.bic != nil:
		i.bic = nil

		return "drop bic"
	}
	*i.reward++

	return "reward +1"
}

func mutCaps(g *vmGen) string {
	// a permission which is needed, more often
	for try := 0; try < 4; try++ {
		b := g.r.Intn(6)
		if g.caps[b] {
			g.caps[b] = false

			return "cap " + itoa(b)
		}
	}
	b := g.r.Intn(6)
	g.caps[b] = !g.caps[b]

	return "cap " + itoa(b)
}

// mutMove moves base tokens, mana or native tokens between two places.
func mutMove(g *vmGen) string {
	r := g.r
	a, b := g.outs[r.Intn(len(g.outs))], g.outs[r.Intn(len(g.outs))]
	switch r.Intn(5) {
	case 4: // keep a storage deposit
		var sdrs []*iotago.StorageDepositReturnUnlockCondition
		for _, in := range g.ins {
			if u, has := getUC[*iotago.StorageDepositReturnUnlockCondition](in.o); has {
				sdrs = append(sdrs, u)
			}
		}
		if len(sdrs) == 0 {
			return ""
		}
		u := sdrs[r.Intn(len(sdrs))]
		x := uint64(u.Amount)
		if coin(r, 3) {
			x = r.Uint64()%x + 1
		}
		for _, i := range r.Perm(len(g.outs)) {
			if o, is := g.outs[i].(*iotago.BasicOutput); is && len(o.UnlockConditions) == 1 && akey(addrUC(o)) == akey(u.ReturnAddress) && uint64(o.Amount) > x && g.outs[i] != b {
				o.Amount -= iotago.BaseToken(x)
				refSetAmount(b, refAmount(b)+x)

				return "keep a storage deposit"
			}
		}

		return ""
	case 0:
		x := uint64(1 + r.Intn(3))
		if refAmount(a) <= x || a == b {
			return ""
		}
		refSetAmount(a, refAmount(a)-x)
		refSetAmount(b, refAmount(b)+x)

		return "move tokens"
	case 1, 2:
		m := refStoredMana(a)
		if m == 0 || a == b {
			return ""
		}
		x := uint64(1)
		if coin(r, 2) {
			x = r.Uint64()%m + 1
		}
		before := refStoredMana(b)
		refSetMana(b, before+x)
		if refStoredMana(b) != before+x {
			return ""
		}
		refSetMana(a, m-x)

		return "move mana"
	default:
		m := refStoredMana(a)
		if m == 0 {
			return ""
		}
		x := uint64(1)
		if coin(r, 2) {
			x = m
		}
		refSetMana(a, m-x)
		id := iotago.AccountID(r32(r))
		if len(g.issuers) > 0 && coin(r, 2) {
			id = g.issuers[r.Intn(len(g.issuers))].out.AccountID
		}
		g.allot[id] += x
		g.hasCommit = true

		return "allot mana"
	}
}

// mutImplicit adds a second implicit account or turns an address into one.
func mutImplicit(g *vmGen) string {
	g.usedImplicit = false
	g.lateFeats = nil
	g.mvImplicit()
	for _, f := range g.lateFeats {
		f()
	}
	in := g.ins[len(g.ins)-1]
	out := g.outs[len(g.outs)-1]
	sp := g.w.PP.StorageScoreParameters()
	refSetAmount(out, refMinDeposit(sp, out).Uint64())
	if s, has := getFeat[*iotago.StakingFeature](out); has {
		s.StakedAmount = 0
	}
	refSetAmount(in.o, refAmount(out))
	refSetMana(in.o, 0)
	if x := iotago.OutputID(in.id); refIDSlot(x) != g.create {
		in.id[32], in.id[33], in.id[34], in.id[35] = byte(g.create), byte(g.create>>8), byte(g.create>>16), byte(g.create>>24)
		out.(*iotago.AccountOutput).AccountID = iotago.AccountID(blake(in.id[:]))
	}

	return "another implicit account"
}

// mutUnlocks changes the unlocks of an assembled scene.
func mutUnlocks(g *vmGen, sc *vmScene) string {
	r := g.r
	us := sc.stx.Unlocks
	i := r.Intn(len(us))
	msg := blake(refTx(sc.stx.Transaction))
	switch r.Intn(8) {
	case 0: // signature by another key
		if _, is := us[i].(*iotago.SignatureUnlock); !is {
			return ""
		}
		us[i] = &iotago.SignatureUnlock{Signature: g.keys[r.Intn(len(g.keys))].sign(msg[:])}

		return "other key"
	case 1: // signature of another message
		var sig *iotago.Ed25519Signature
		switch u := us[i].(type) {
		case *iotago.SignatureUnlock:
			sig = u.Signature.(*iotago.Ed25519Signature)
		case *iotago.MultiUnlock:
			for _, x := range u.Unlocks {
				if s, is := x.(*iotago.SignatureUnlock); is {
					sig = s.Signature.(*iotago.Ed25519Signature)
				}
			}
		}
		if sig == nil {
			return ""
		}
		sig.Signature[r.Intn(64)] ^= 1 << r.Intn(8)

		return "broken signature"
	case 2: // another reference
		if len(us) < 2 {
			return ""
		}
		ref := uint16(r.Intn(len(us)))
		switch u := us[i].(type) {
		case *iotago.ReferenceUnlock:
			u.Reference = ref
		case *iotago.AccountUnlock:
			u.Reference = ref
		case *iotago.AnchorUnlock:
			u.Reference = ref
		case *iotago.NFTUnlock:
			u.Reference = ref
		case *iotago.MultiUnlock:
			for _, x := range u.Unlocks {
				switch x := x.(type) {
				case *iotago.ReferenceUnlock:
					x.Reference = ref
				case *iotago.AccountUnlock:
					x.Reference = ref
				case *iotago.AnchorUnlock:
					x.Reference = ref
				case *iotago.NFTUnlock:
					x.Reference = ref
				}
			}
		default:
			return ""
		}

		return "other reference"
	case 3: // another kind of reference
		if i == 0 {
			return ""
		}
		ref := uint16(r.Intn(i))
		switch u := us[i].(type) {
		case *iotago.ReferenceUnlock:
			ref = u.Reference
		case *iotago.AccountUnlock:
			ref = u.Reference
		case *iotago.AnchorUnlock:
			ref = u.Reference
		case *iotago.NFTUnlock:
			ref = u.Reference
		}
		us[i] = []iotago.Unlock{&iotago.ReferenceUnlock{Reference: ref}, &iotago.AccountUnlock{Reference: ref}, &iotago.AnchorUnlock{Reference: ref}, &iotago.NFTUnlock{Reference: ref}}[r.Intn(4)]

		return "other kind of unlock"
	case 4: // empty parts of multi unlocks
		for _, u := range us {
			if m, is := u.(*iotago.MultiUnlock); is {
				k := r.Intn(len(m.Unlocks))
				if coin(r, 2) {
					k = -1
					for j, x := range m.Unlocks {
						if _, empty := x.(*iotago.EmptyUnlock); !empty && (k < 0 || coin(r, 2)) {
							k = j
						}
					}
				}
				if k < 0 {
					return ""
				}
				m.Unlocks[k] = &iotago.EmptyUnlock{}

				return "emptied part of a multi unlock"
			}
		}
	case 5: // swapped or missing parts
		for _, u := range us {
			if m, is := u.(*iotago.MultiUnlock); is {
				a, b := r.Intn(len(m.Unlocks)), r.Intn(len(m.Unlocks))
				if coin(r, 3) {
					m.Unlocks = append(m.Unlocks, &iotago.EmptyUnlock{})
				} else if coin(r, 3) && len(m.Unlocks) > 2 {
					m.Unlocks = m.Unlocks[:len(m.Unlocks)-1]
				} else {
					m.Unlocks[a], m.Unlocks[b] = m.Unlocks[b], m.Unlocks[a]
				}

				return "rearranged multi unlock"
			}
		}
	case 6: // signature by an arbitrary key instead
		us[i] = &iotago.SignatureUnlock{Signature: keyPool[r.Intn(len(keyPool))].sign(msg[:])}

		return "signature instead"
	default:
		j := r.Intn(len(us))
		us[i], us[j] = us[j], us[i]

		return "swapped unlocks"
	}

	return ""
}
