package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
)

// P26: the output and block builders.

// outModel is what an output builder was told.
type outModel struct {
	typ          byte
	head         func() []byte // everything before the unlock conditions
	ucs          map[byte][]byte
	feats        map[byte][]byte
	imm          map[byte][]byte
	hasFeats     bool
	hasImm       bool
	amount, mana uint64
	id           [32]byte
	counter      uint32
	bi           *iotago.BlockIssuerFeature // the block issuer feature, by value
	st           *iotago.StakingFeature
	state, gov   bool // calls only the state controller or only the governor may make
}

func byType(list [][]byte) map[byte][]byte {
	m := map[byte][]byte{}
	for _, b := range list {
		m[b[0]] = b
	}

	return m
}

func encByType(m map[byte][]byte) []byte {
	var ks []int
	for k := range m {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	e := (&enc{}).u8(uint8(len(ks)))
	for _, k := range ks {
		e.raw(m[byte(k)])
	}

	return e.b
}

func (m *outModel) setUC(u iotago.UnlockCondition) { b := refUC(u); m.ucs[b[0]] = b }
func (m *outModel) setFeat(f iotago.Feature)       { b := refFeature(f); m.feats[b[0]] = b }
func (m *outModel) setImm(f iotago.Feature)        { b := refFeature(f); m.imm[b[0]] = b }

func (m *outModel) bytes() []byte {
	if m.bi != nil {
		m.setFeat(m.bi)
	}
	if m.st != nil {
		m.setFeat(m.st)
	}
	b := append([]byte{m.typ}, m.head()...)
	b = append(b, encByType(m.ucs)...)
	if m.hasFeats {
		b = append(b, encByType(m.feats)...)
	}
	if m.hasImm {
		b = append(b, encByType(m.imm)...)
	}

	return b
}

// modelOf is the model of a builder which starts with the output.
func modelOf(o iotago.Output) *outModel {
	m := &outModel{typ: refOutput(o)[0], amount: uint64(o.BaseTokenAmount()), hasFeats: true, hasImm: true}
	var us, fs, is [][]byte
	for _, u := range refUCList(o) {
		us = append(us, refUC(u))
	}
	feats, imm := refFeatList(o)
	for _, f := range feats {
		fs = append(fs, refFeature(f))
		switch f := f.(type) {
		case *iotago.BlockIssuerFeature:
			m.bi = &iotago.BlockIssuerFeature{ExpirySlot: f.ExpirySlot, BlockIssuerKeys: append(iotago.BlockIssuerKeys{}, f.BlockIssuerKeys...)}
		case *iotago.StakingFeature:
			c := *f
			m.st = &c
		}
	}
	for _, f := range imm {
		is = append(is, refFeature(f))
	}
	m.ucs, m.feats, m.imm = byType(us), byType(fs), byType(is)

	return m
}

type outOp struct {
	name string
	f    func()
}

// outBuild is one builder under test.
type outBuild struct {
	m     *outModel
	prev  iotago.Output
	ops   []outOp
	build func() (iotago.Output, error)
	must  func() iotago.Output
}

func genEntries(r *rand.Rand) iotago.MetadataFeatureEntries { return genMetadata(r).Entries }

// newOutBuild makes a builder of the kind, from scratch or from a previous output.
func newOutBuild(r *rand.Rand, kind int, fromPrev bool) *outBuild {
	x := &outBuild{}
	amount := iotago.BaseToken(ru64(r))
	addr := genAnyAddr(r)
	acc := iotago.AccountAddress(r32(r))
	shuffledPrev := func(typ iotago.OutputType) iotago.Output { return genOutputType(r, typ) }
	op := func(name string, f func()) { x.ops = append(x.ops, outOp{name, f}) }
	switch kind {
	case 0:
		var b *builder.BasicOutputBuilder
		var start *iotago.BasicOutput
		if fromPrev {
			start = shuffledPrev(iotago.OutputBasic).(*iotago.BasicOutput)
			x.prev, b = start, builder.NewBasicOutputBuilderFromPrevious(start)
		} else {
			start = &iotago.BasicOutput{Amount: amount, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}}
			b = builder.NewBasicOutputBuilder(addr, amount)
		}
		m := modelOf(start)
		m.hasImm, m.mana = false, uint64(start.Mana)
		m.head = func() []byte { return (&enc{}).u64(m.amount).u64(m.mana).b }
		x.m = m
		op("Amount", func() { v := ru64(r); m.amount = v; b.Amount(iotago.BaseToken(v)) })
		op("Mana", func() { v := ru64(r); m.mana = v; b.Mana(iotago.Mana(v)) })
		op("Address", func() { a := genAnyAddr(r); m.setUC(&iotago.AddressUnlockCondition{Address: a}); b.Address(a) })
		op("StorageDepositReturn", func() { u := genSDR(r); m.setUC(u); b.StorageDepositReturn(u.ReturnAddress, u.Amount) })
		op("Timelock", func() {
			u := &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(ru32(r))}
			m.setUC(u)
			b.Timelock(u.Slot)
		})
		op("Expiration", func() {
			u := &iotago.ExpirationUnlockCondition{ReturnAddress: genAddr(r), Slot: iotago.SlotIndex(ru32(r))}
			m.setUC(u)
			b.Expiration(u.ReturnAddress, u.Slot)
		})
		op("Sender", func() { a := genAnyAddr(r); m.setFeat(&iotago.SenderFeature{Address: a}); b.Sender(a) })
		op("Metadata", func() { e := genEntries(r); m.setFeat(&iotago.MetadataFeature{Entries: e}); b.Metadata(e) })
		op("Tag", func() { f := genTag(r); m.setFeat(f); b.Tag(f.Tag) })
		op("NativeToken", func() {
			f := &iotago.NativeTokenFeature{ID: genFoundryID(r), Amount: rbig(r)}
			m.setFeat(f)
			b.NativeToken(f)
		})
		x.build = func() (iotago.Output, error) { o, err := b.Build(); return o, err }
		x.must = func() iotago.Output { return b.MustBuild() }
	case 1:
		var b *builder.AccountOutputBuilder
		var start *iotago.AccountOutput
		if fromPrev {
			start = shuffledPrev(iotago.OutputAccount).(*iotago.AccountOutput)
			x.prev, b = start, builder.NewAccountOutputBuilderFromPrevious(start)
		} else {
			start = &iotago.AccountOutput{Amount: amount, UnlockConditions: iotago.AccountOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}}
			b = builder.NewAccountOutputBuilder(addr, amount)
		}
		m := modelOf(start)
		m.mana, m.id, m.counter = uint64(start.Mana), start.AccountID, start.FoundryCounter
		m.head = func() []byte { return (&enc{}).u64(m.amount).u64(m.mana).raw(m.id[:]).u32(m.counter).b }
		x.m = m
		op("Amount", func() { v := ru64(r); m.amount = v; b.Amount(iotago.BaseToken(v)) })
		op("Mana", func() { v := ru64(r); m.mana = v; b.Mana(iotago.Mana(v)) })
		op("AccountID", func() { v := r32(r); m.id = v; b.AccountID(v) })
		op("FoundriesToGenerate", func() {
			v := uint32(r.Intn(5))
			if uint64(m.counter)+uint64(v) > 1<<32-1 {
				return
			}
			m.counter += v
			b.FoundriesToGenerate(v)
		})
		op("Address", func() { a := genAnyAddr(r); m.setUC(&iotago.AddressUnlockCondition{Address: a}); b.Address(a) })
		op("Sender", func() { a := genAnyAddr(r); m.setFeat(&iotago.SenderFeature{Address: a}); b.Sender(a) })
		op("Metadata", func() { e := genEntries(r); m.setFeat(&iotago.MetadataFeature{Entries: e}); b.Metadata(e) })
		op("BlockIssuer", func() {
			f := genBlockIssuer(r)
			m.bi = f
			b.BlockIssuer(append(iotago.BlockIssuerKeys{}, f.BlockIssuerKeys...), f.ExpirySlot)
		})
		op("Staking", func() {
			f := genStaking(r)
			m.st = f
			if coin(r, 2) {
				f.EndEpoch = 1<<32 - 1
				b.Staking(f.StakedAmount, f.FixedCost, f.StartEpoch)
			} else {
				b.Staking(f.StakedAmount, f.FixedCost, f.StartEpoch, f.EndEpoch)
			}
		})
		op("ImmutableIssuer", func() { a := genAnyAddr(r); m.setImm(&iotago.IssuerFeature{Address: a}); b.ImmutableIssuer(a) })
		op("ImmutableMetadata", func() {
			e := genEntries(r)
			m.setImm(&iotago.MetadataFeature{Entries: e})
			b.ImmutableMetadata(e)
		})
		op("ImmutableSame", func() {
			for _, f := range start.ImmutableFeatures {
				switch f := any(f).(type) {
				case *iotago.IssuerFeature:
					m.setImm(f)
					b.ImmutableIssuer(f.Address)
				case *iotago.MetadataFeature:
					m.setImm(f)
					b.ImmutableMetadata(f.Entries)
				}
			}
		})
		op("RemoveFeature", func() {
			typ := byte([]int{0, 2, 6, 7, 4}[r.Intn(5)])
			delete(m.feats, typ)
			if typ == 6 {
				m.bi = nil
			}
			if typ == 7 {
				m.st = nil
			}
			b.RemoveFeature(iotago.FeatureType(typ))
		})
		op("BlockIssuerTransition", func() {
			if m.bi == nil {
				m.bi = &iotago.BlockIssuerFeature{}
			}
			t := b.BlockIssuerTransition()
			for n := r.Intn(4); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					var ks iotago.BlockIssuerKeys
					for i := r.Intn(3); i >= 0; i-- {
						if coin(r, 3) && len(m.bi.BlockIssuerKeys) > 0 {
							ks = append(ks, m.bi.BlockIssuerKeys[r.Intn(len(m.bi.BlockIssuerKeys))].Clone())
						} else {
							ks = append(ks, genBIKey(r))
						}
					}
					m.bi.BlockIssuerKeys = sortBIKeys(append(append(iotago.BlockIssuerKeys{}, m.bi.BlockIssuerKeys...), ks...))
					t = t.AddKeys(ks...)
				case 1:
					k := genBIKey(r)
					if n := len(m.bi.BlockIssuerKeys); n > 0 && !coin(r, 4) {
						k = m.bi.BlockIssuerKeys[r.Intn(n)].Clone()
					}
					var rest iotago.BlockIssuerKeys
					for _, o := range m.bi.BlockIssuerKeys {
						if !bytes.Equal(refBIKey(o), refBIKey(k)) {
							rest = append(rest, o)
						}
					}
					m.bi.BlockIssuerKeys = rest
					t = t.RemoveKey(k)
				case 2:
					f := genBlockIssuer(r)
					m.bi.BlockIssuerKeys = f.BlockIssuerKeys
					t = t.Keys(append(iotago.BlockIssuerKeys{}, f.BlockIssuerKeys...))
				case 3:
					m.bi.ExpirySlot = iotago.SlotIndex(ru32(r))
					t = t.ExpirySlot(m.bi.ExpirySlot)
				}
			}
			b = t.Builder()
		})
		op("StakingTransition", func() {
			if m.st == nil {
				m.st = &iotago.StakingFeature{}
			}
			t := b.StakingTransition()
			f := genStaking(r)
			for n := r.Intn(4); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					m.st.StakedAmount = f.StakedAmount
					t = t.StakedAmount(f.StakedAmount)
				case 1:
					m.st.FixedCost = f.FixedCost
					t = t.FixedCost(f.FixedCost)
				case 2:
					m.st.StartEpoch = f.StartEpoch
					t = t.StartEpoch(f.StartEpoch)
				case 3:
					m.st.EndEpoch = f.EndEpoch
					t = t.EndEpoch(f.EndEpoch)
				}
			}
			b = t.Builder()
		})
		x.build = func() (iotago.Output, error) { o, err := b.Build(); return o, err }
		x.must = func() iotago.Output { return b.MustBuild() }
	case 2:
		var b *builder.AnchorOutputBuilder
		var start *iotago.AnchorOutput
		if fromPrev {
			start = shuffledPrev(iotago.OutputAnchor).(*iotago.AnchorOutput)
			if start.StateIndex == 1<<32-1 {
				start.StateIndex--
			}
			x.prev, b = start, builder.NewAnchorOutputBuilderFromPrevious(start)
		} else {
			gov := genAnyAddr(r)
			start = &iotago.AnchorOutput{Amount: amount, UnlockConditions: iotago.AnchorOutputUnlockConditions{&iotago.StateControllerAddressUnlockCondition{Address: addr}, &iotago.GovernorAddressUnlockCondition{Address: gov}}}
			b = builder.NewAnchorOutputBuilder(addr, gov, amount)
		}
		m := modelOf(start)
		m.mana, m.id, m.counter = uint64(start.Mana), start.AnchorID, start.StateIndex
		m.head = func() []byte {
			idx := m.counter
			if x.prev != nil && m.state {
				idx++
			}

			return (&enc{}).u64(m.amount).u64(m.mana).raw(m.id[:]).u32(idx).b
		}
		x.m = m
		// one side's calls are favoured, otherwise nearly every sequence must be refused
		side := r.Intn(3)
		st := func(name string, f func()) {
			if side != 1 || coin(r, 8) {
				op(name, func() { m.state = true; f() })
			}
		}
		gv := func(name string, f func()) {
			if side != 0 || coin(r, 8) {
				op(name, func() { m.gov = true; f() })
			}
		}
		st("Amount", func() {
			v := ru64(r)
			m.amount = v
			if coin(r, 2) {
				b = b.StateTransition().Amount(iotago.BaseToken(v)).Builder()
			} else {
				b.Amount(iotago.BaseToken(v))
			}
		})
		op("Mana", func() {
			v := ru64(r)
			m.mana = v
			if coin(r, 2) {
				b = b.StateTransition().Mana(iotago.Mana(v)).Builder()
			} else {
				b.Mana(iotago.Mana(v))
			}
		})
		op("AnchorID", func() { v := r32(r); m.id = v; b.AnchorID(v) })
		st("StateMetadata", func() {
			f := genStateMetadata(r)
			m.setFeat(f)
			if coin(r, 2) {
				b = b.StateTransition().StateMetadata(f.Entries).Builder()
			} else {
				b.StateMetadata(f.Entries)
			}
		})
		gv("StateController", func() {
			a := genAnyAddr(r)
			m.setUC(&iotago.StateControllerAddressUnlockCondition{Address: a})
			if coin(r, 2) {
				b = b.GovernanceTransition().StateController(a).Builder()
			} else {
				b.StateController(a)
			}
		})
		gv("Governor", func() {
			a := genAnyAddr(r)
			m.setUC(&iotago.GovernorAddressUnlockCondition{Address: a})
			if coin(r, 2) {
				b = b.GovernanceTransition().Governor(a).Builder()
			} else {
				b.Governor(a)
			}
		})
		gv("Metadata", func() {
			f := genMetadata(r)
			m.setFeat(f)
			if coin(r, 2) {
				b = b.GovernanceTransition().Metadata(f.Entries).Builder()
			} else {
				b.Metadata(f.Entries)
			}
		})
		op("ImmutableIssuer", func() { a := genAnyAddr(r); m.setImm(&iotago.IssuerFeature{Address: a}); b.ImmutableIssuer(a) })
		op("ImmutableMetadata", func() {
			e := genEntries(r)
			m.setImm(&iotago.MetadataFeature{Entries: e})
			b.ImmutableMetadata(e)
		})
		op("ImmutableSame", func() {
			for _, f := range start.ImmutableFeatures {
				if i, is := any(f).(*iotago.IssuerFeature); is {
					m.setImm(i)
					b.ImmutableIssuer(i.Address)
				}
			}
		})
		x.build = func() (iotago.Output, error) { o, err := b.Build(); return o, err }
		x.must = func() iotago.Output { return b.MustBuild() }
	case 3:
		var b *builder.FoundryOutputBuilder
		var start *iotago.FoundryOutput
		var scheme *iotago.SimpleTokenScheme
		if fromPrev {
			start = shuffledPrev(iotago.OutputFoundry).(*iotago.FoundryOutput)
			x.prev, b = start, builder.NewFoundryOutputBuilderFromPrevious(start)
		} else {
			start = genOutputType(r, iotago.OutputFoundry).(*iotago.FoundryOutput)
			start.Features, start.ImmutableFeatures = nil, nil
			start.UnlockConditions = iotago.FoundryOutputUnlockConditions{&iotago.ImmutableAccountUnlockCondition{Address: &acc}}
			b = builder.NewFoundryOutputBuilder(&acc, start.Amount, start.SerialNumber, start.TokenScheme)
		}
		m := modelOf(start)
		m.counter = start.SerialNumber
		s := start.TokenScheme.(*iotago.SimpleTokenScheme)
		scheme = &iotago.SimpleTokenScheme{MintedTokens: new(big.Int).Set(s.MintedTokens), MeltedTokens: new(big.Int).Set(s.MeltedTokens), MaximumSupply: new(big.Int).Set(s.MaximumSupply)}
		m.head = func() []byte {
			return (&enc{}).u64(m.amount).u32(m.counter).u8(0).u256(scheme.MintedTokens).u256(scheme.MeltedTokens).u256(scheme.MaximumSupply).b
		}
		x.m = m
		op("Amount", func() { v := ru64(r); m.amount = v; b.Amount(iotago.BaseToken(v)) })
		op("Metadata", func() { e := genEntries(r); m.setFeat(&iotago.MetadataFeature{Entries: e}); b.Metadata(e) })
		op("NativeToken", func() {
			f := &iotago.NativeTokenFeature{ID: genFoundryID(r), Amount: rbig(r)}
			m.setFeat(f)
			b.NativeToken(f)
		})
		op("TokenScheme", func() {
			scheme = &iotago.SimpleTokenScheme{MintedTokens: rbig(r), MeltedTokens: rbig(r), MaximumSupply: rbig(r)}
			c := *scheme
			b.TokenScheme(&c)
		})
		if coin(r, 2) {
			op("ImmutableMetadata", func() {
				e := genEntries(r)
				m.setImm(&iotago.MetadataFeature{Entries: e})
				b.ImmutableMetadata(e)
			})
		}
		op("ImmutableSame", func() {
			for _, f := range start.ImmutableFeatures {
				if i, is := any(f).(*iotago.MetadataFeature); is {
					m.setImm(i)
					b.ImmutableMetadata(i.Entries)
				}
			}
		})
		x.build = func() (iotago.Output, error) { o, err := b.Build(); return o, err }
		x.must = func() iotago.Output { return b.MustBuild() }
	case 4:
		var b *builder.NFTOutputBuilder
		var start *iotago.NFTOutput
		if fromPrev {
			start = shuffledPrev(iotago.OutputNFT).(*iotago.NFTOutput)
			x.prev, b = start, builder.NewNFTOutputBuilderFromPrevious(start)
		} else {
			start = &iotago.NFTOutput{Amount: amount, UnlockConditions: iotago.NFTOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}}
			b = builder.NewNFTOutputBuilder(addr, amount)
		}
		m := modelOf(start)
		m.mana, m.id = uint64(start.Mana), start.NFTID
		m.head = func() []byte { return (&enc{}).u64(m.amount).u64(m.mana).raw(m.id[:]).b }
		x.m = m
		op("Amount", func() { v := ru64(r); m.amount = v; b.Amount(iotago.BaseToken(v)) })
		op("Mana", func() { v := ru64(r); m.mana = v; b.Mana(iotago.Mana(v)) })
		op("NFTID", func() { v := r32(r); m.id = v; b.NFTID(v) })
		op("Address", func() { a := genAnyAddr(r); m.setUC(&iotago.AddressUnlockCondition{Address: a}); b.Address(a) })
		op("StorageDepositReturn", func() { u := genSDR(r); m.setUC(u); b.StorageDepositReturn(u.ReturnAddress, u.Amount) })
		op("Timelock", func() {
			u := &iotago.TimelockUnlockCondition{Slot: iotago.SlotIndex(ru32(r))}
			m.setUC(u)
			b.Timelock(u.Slot)
		})
		op("Expiration", func() {
			u := &iotago.ExpirationUnlockCondition{ReturnAddress: genAddr(r), Slot: iotago.SlotIndex(ru32(r))}
			m.setUC(u)
			b.Expiration(u.ReturnAddress, u.Slot)
		})
		op("Sender", func() { a := genAnyAddr(r); m.setFeat(&iotago.SenderFeature{Address: a}); b.Sender(a) })
		op("Metadata", func() { e := genEntries(r); m.setFeat(&iotago.MetadataFeature{Entries: e}); b.Metadata(e) })
		op("Tag", func() { f := genTag(r); m.setFeat(f); b.Tag(f.Tag) })
		if coin(r, 2) {
			op("ImmutableIssuer", func() { a := genAnyAddr(r); m.setImm(&iotago.IssuerFeature{Address: a}); b.ImmutableIssuer(a) })
			op("ImmutableMetadata", func() {
				e := genEntries(r)
				m.setImm(&iotago.MetadataFeature{Entries: e})
				b.ImmutableMetadata(e)
			})
		}
		op("ImmutableSame", func() {
			for _, f := range start.ImmutableFeatures {
				switch f := any(f).(type) {
				case *iotago.IssuerFeature:
					m.setImm(f)
					b.ImmutableIssuer(f.Address)
				case *iotago.MetadataFeature:
					m.setImm(f)
					b.ImmutableMetadata(f.Entries)
				}
			}
		})
		x.build = func() (iotago.Output, error) { o, err := b.Build(); return o, err }
		x.must = func() iotago.Output { return b.MustBuild() }
	default:
		var b *builder.DelegationOutputBuilder
		var start *iotago.DelegationOutput
		if fromPrev {
			start = shuffledPrev(iotago.OutputDelegation).(*iotago.DelegationOutput)
			x.prev, b = start, builder.NewDelegationOutputBuilderFromPrevious(start)
		} else {
			start = &iotago.DelegationOutput{Amount: amount, ValidatorAddress: &acc, UnlockConditions: iotago.DelegationOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: addr}}}
			b = builder.NewDelegationOutputBuilder(&acc, addr, amount)
		}
		m := modelOf(start)
		m.hasFeats, m.hasImm = false, false
		c := *start
		m.head = func() []byte {
			return (&enc{}).u64(m.amount).u64(uint64(c.DelegatedAmount)).raw(c.DelegationID[:]).raw(refAddr(c.ValidatorAddress)).u32(uint32(c.StartEpoch)).u32(uint32(c.EndEpoch)).b
		}
		x.m = m
		op("Amount", func() { v := ru64(r); m.amount = v; b.Amount(iotago.BaseToken(v)) })
		op("DelegatedAmount", func() { c.DelegatedAmount = iotago.BaseToken(ru64(r)); b.DelegatedAmount(c.DelegatedAmount) })
		op("ValidatorAddress", func() { a := iotago.AccountAddress(r32(r)); c.ValidatorAddress = &a; b.ValidatorAddress(&a) })
		op("DelegationID", func() { c.DelegationID = r32(r); b.DelegationID(c.DelegationID) })
		op("StartEpoch", func() { c.StartEpoch = iotago.EpochIndex(ru32(r)); b.StartEpoch(c.StartEpoch) })
		op("EndEpoch", func() { c.EndEpoch = iotago.EpochIndex(ru32(r)); b.EndEpoch(c.EndEpoch) })
		op("Address", func() { a := genAnyAddr(r); m.setUC(&iotago.AddressUnlockCondition{Address: a}); b.Address(a) })
		x.build = func() (iotago.Output, error) { o, err := b.Build(); return o, err }
		x.must = func() iotago.Output { return b.MustBuild() }
	}

	return x
}

var outKindNames = []string{"basic", "account", "anchor", "foundry", "nft", "delegation"}

// blockOps is the part of the block builders which both share.
type blockOps[B any] interface {
	ProtocolVersion(v iotago.Version) B
	IssuingTime(t time.Time) B
	SlotCommitmentID(c iotago.CommitmentID) B
	LatestFinalizedSlot(s iotago.SlotIndex) B
	Sign(id iotago.AccountID, k ed25519.PrivateKey) B
	SignWithSigner(id iotago.AccountID, s iotago.AddressSigner, a iotago.Address) B
	StrongParents(p iotago.BlockIDs) B
	WeakParents(p iotago.BlockIDs) B
	ShallowLikeParents(p iotago.BlockIDs) B
	Build() (*iotago.Block, error)
}

// messyParents makes an unsorted list of parents with duplicates, and what is to become of it.
func messyParents(r *rand.Rand, hi int) (given, want iotago.BlockIDs) {
	want = genBlockIDs(r, 0, hi)
	given = append(iotago.BlockIDs{}, want...)
	for i := r.Intn(4); i > 0 && len(want) > 0; i-- {
		given = append(given, want[r.Intn(len(want))])
	}
	if coin(r, 3) && len(want) > 0 { // differs in the slot or in the last bytes only
		id := want[r.Intn(len(want))]
		id[r.Intn(36)] ^= 1 << r.Intn(8)
		given = append(given, id)
		want = append(want, id)
	}
	sort.Slice(want, func(i, j int) bool { return bytes.Compare(want[i][:], want[j][:]) < 0 })
	var uniq iotago.BlockIDs
	for i, id := range want {
		if i == 0 || id != want[i-1] {
			uniq = append(uniq, id)
		}
	}
	r.Shuffle(len(given), func(i, j int) { given[i], given[j] = given[j], given[i] })

	return given, uniq
}

// runBlockBuilder applies random operations to a builder and to the block it has to build.
func runBlockBuilder[B blockOps[B]](t *Case, w *World, b B, m *iotago.Block, own func(b B) (B, string, bool)) {
	r := t.R
	strong, weak, like := &iotago.BlockIDs{}, &iotago.BlockIDs{}, &iotago.BlockIDs{}
	switch body := m.Body.(type) {
	case *iotago.BasicBlockBody:
		strong, weak, like = &body.StrongParents, &body.WeakParents, &body.ShallowLikeParents
	case *iotago.ValidationBlockBody:
		strong, weak, like = &body.StrongParents, &body.WeakParents, &body.ShallowLikeParents
	}
	fresh, err := b.Build()
	if !t.Check(err == nil, "block:fresh", "a new builder does not build: %v", err) {
		return
	}
	d := time.Since(fresh.Header.IssuingTime)
	t.Check(d > -time.Minute && d < time.Hour, "block:issuing-time", "the block of a new builder was issued at %s", fresh.Header.IssuingTime)
	t.Check(fresh.Header.NetworkID == refNetworkID(w) && fresh.Header.ProtocolVersion == w.PP.Version(), "block:defaults", "network or version of a new builder's block are wrong")
	m.Header.IssuingTime = genIssuingTime(r, w)
	m.Header.SlotCommitmentID = genSlotID(r)
	b = b.IssuingTime(m.Header.IssuingTime).SlotCommitmentID(m.Header.SlotCommitmentID)
	failed, ops := "", ""
	signed := false
	var key keyPair
	parents := func(name string, at *iotago.BlockIDs, hi int, f func(p iotago.BlockIDs) B) {
		given, want := messyParents(r, hi)
		keep := append(iotago.BlockIDs{}, given...)
		b = f(given)
		if failed == "" {
			*at = want
		}
		same := len(keep) == len(given)
		for i := range keep {
			same = same && keep[i] == given[i]
		}
		t.Check(same, "block:parents-argument", "%s changed the list it was given", name)
	}
	sign := func() {
		key = keyPool[r.Intn(len(keyPool))]
		id := iotago.AccountID(r32(r))
		ops += "Sign "
		switch r.Intn(5) {
		case 0, 1:
			b = b.Sign(id, key.Priv)
		case 2:
			b = b.SignWithSigner(id, iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(key.ed(), key.Priv)), key.ed())
		case 3:
			b = b.SignWithSigner(id, iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForImplicitAccountCreationAddress(key.implicit(), key.Priv)), key.implicit())
		case 4:
			if coin(r, 3) && failed == "" {
				other := keyPool[r.Intn(len(keyPool))]
				if other.hash() == key.hash() {
					b = b.Sign(id, key.Priv)

					break
				}
				b = b.SignWithSigner(id, iotago.NewInMemoryAddressSigner(iotago.NewAddressKeysForEd25519Address(other.ed(), other.Priv)), key.ed())
				failed = "signed with an unknown key"
				m.Header.IssuerID = id

				return
			}
			b = b.Sign(id, key.Priv)
		}
		if failed != "" {
			return
		}
		m.Header.IssuerID = id
		signed = true
		m.Signature = key.sign(refBlockSigningMessage(m))
	}
	for n := r.Intn(14); n > 0; n-- {
		switch r.Intn(9) {
		case 0:
			v := w.PP.Version()
			if coin(r, 4) {
				v = iotago.Version(r.Intn(256))
			}
			b = b.ProtocolVersion(v)
			if failed == "" {
				m.Header.ProtocolVersion = v
			}
			ops += "Version "
		case 1:
			tm := genIssuingTime(r, w)
			b = b.IssuingTime(tm.In(time.FixedZone("x", 3600*(r.Intn(24)-12))))
			if failed == "" {
				m.Header.IssuingTime = tm
			}
			ops += "Time "
		case 2:
			c := iotago.CommitmentID(genSlotID(r))
			b = b.SlotCommitmentID(c)
			if failed == "" {
				m.Header.SlotCommitmentID = c
			}
			ops += "Commitment "
		case 3:
			s := iotago.SlotIndex(ru32(r))
			b = b.LatestFinalizedSlot(s)
			if failed == "" {
				m.Header.LatestFinalizedSlot = s
			}
			ops += "Finalized "
		case 4:
			parents("StrongParents", strong, 8, func(p iotago.BlockIDs) B { return b.StrongParents(p) })
			ops += "Strong "
		case 5:
			parents("WeakParents", weak, 6, func(p iotago.BlockIDs) B { return b.WeakParents(p) })
			ops += "Weak "
		case 6:
			parents("ShallowLikeParents", like, 6, func(p iotago.BlockIDs) B { return b.ShallowLikeParents(p) })
			ops += "Like "
		case 7:
			if coin(r, 2) {
				sign()
			}
		case 8:
			var fail bool
			var name string
			if failed == "" {
				b, name, fail = own(b)
				ops += name + " "
				if fail {
					failed = name
				}
			}
		}
	}
	if !coin(r, 6) {
		sign()
	} else {
		signed = false
	}
	blk, err := b.Build()
	t.Eval(fmt.Sprintf("block/%T/%s/%v", m.Body, ops, failed == ""))
	if failed != "" {
		t.Count("blocks which must not be built")
		t.Check(err != nil, "block:error-lost", "the block is built after %s: %s", failed, ops)
		blk, err = b.Build()
		t.Check(err != nil && blk == nil, "block:error-lost", "the block is built the second time after %s", failed)

		return
	}
	if !t.Check(err == nil, "block:refused", "Build after %s: %v", ops, err) {
		return
	}
	t.Count("blocks built")
	if !t.Check(bytes.Equal(refBlock(blk), refBlock(m)), "block:content", "after %s\nbuilt    %x\nexpected %x", ops, refBlock(blk), refBlock(m)) {
		return
	}
	again, err := b.Build()
	t.Check(err == nil && bytes.Equal(refBlock(again), refBlock(m)), "block:again", "building again gives another block")
	if signed {
		ok, err := blk.VerifySignature()
		t.Check(err == nil && ok, "block:signature", "the signature of the built block does not verify: %v", err)
		sig := blk.Signature.(*iotago.Ed25519Signature)
		t.Check(ed25519.Verify(sig.PublicKey[:], refBlockSigningMessage(blk), sig.Signature[:]) && bytes.Equal(sig.PublicKey[:], key.Pub), "block:signature", "the signature is not one of the key over the block")
		t.Count("signatures verified")
	}
	id, err := blk.ID()
	t.Check(err == nil && id == refBlockID(w, m), "block:id", "ID is %s (%v)", id, err)
	encd, err := w.API.Encode(blk)
	if t.Check(err == nil && bytes.Equal(encd, refBlock(m)), "block:encode", "%v", err) {
		t.Count("blocks encoded")
	}
}

func init() {
	register("P26", func(c *Ctx) {
		c.Rule("output: random sequences of calls to every output builder, from scratch and from previous outputs, are applied to a model (one unlock condition and feature per type, sorted); Build must give exactly the model, twice, and leave the previous output as it was")
		c.Rule("output: changed immutable features and anchor calls of both controllers must be refused; the state index grows by one with calls of the state controller only")
		c.Rule("block: random sequences of calls to both block builders, parents unsorted and duplicated; content, signature (standard library ed25519 over the reference signing message) and mana cost are compared with the model, errors must stay")
		c.Assume("Setting the mana of an anchor counts for neither controller; transition handles are not kept across other calls which replace the feature")

		c.Run("output", c.N(200000, 4000000), func(t *Case) {
			r := t.R
			kind := r.Intn(6)
			fromPrev := coin(r, 2)
			x := newOutBuild(r, kind, fromPrev)
			var prevBytes []byte
			immBefore := encByType(x.m.imm)
			if x.prev != nil {
				prevBytes = refOutput(x.prev)
			}
			ops := ""
			for round := 0; round < 1+r.Intn(2); round++ {
				for n := r.Intn(8); n > 0; n-- {
					o := x.ops[r.Intn(len(x.ops))]
					if x.prev != nil && len(o.name) > 9 && o.name[:9] == "Immutable" && o.name != "ImmutableSame" && !coin(r, 4) {
						continue
					}
					if x.prev == nil && o.name == "ImmutableSame" {
						continue
					}
					o.f()
					ops += o.name + " "
				}
				fail := ""
				if x.prev != nil {
					if x.m.state && x.m.gov {
						fail = "calls of both controllers"
					}
					if !bytes.Equal(immBefore, encByType(x.m.imm)) {
						fail = join(fail, "immutable features changed")
					}
				}
				o, err := x.build()
				t.Eval(fmt.Sprintf("output/%s/%v/%s/%s", outKindNames[kind], fromPrev, ops, fail))
				if x.prev != nil {
					t.Check(bytes.Equal(refOutput(x.prev), prevBytes), "output:previous-changed:"+outKindNames[kind], "after %s the previous output is changed", ops)
				}
				if fail != "" {
					t.Count("outputs which must not be built")
					t.Check(err != nil, "output:accepted:"+outKindNames[kind], "built although: %s (%s)", fail, ops)
					func() {
						defer func() {
							t.Check(recover() != nil, "output:must-build:"+outKindNames[kind], "MustBuild does not panic")
						}()
						x.must()
					}()

					return
				}
				if !t.Check(err == nil, "output:refused:"+outKindNames[kind], "Build after %s: %v", ops, err) {
					return
				}
				t.Count("outputs built: " + outKindNames[kind])
				want := x.m.bytes()
				if !t.Check(bytes.Equal(refOutput(o), want), "output:content:"+outKindNames[kind], "after %s\nbuilt    %x\nexpected %x", ops, refOutput(o), want) {
					return
				}
				again, err := x.build()
				t.Check(err == nil && bytes.Equal(refOutput(again), want), "output:again:"+outKindNames[kind], "building again gives another output")
				t.Check(bytes.Equal(refOutput(x.must()), want), "output:again:"+outKindNames[kind], "MustBuild gives another output")
			}
		})

		c.Run("basic-block", c.N(30000, 600000), func(t *Case) {
			r := t.R
			w := pickWorld(r)
			body := &iotago.BasicBlockBody{API: w.API}
			m := &iotago.Block{API: w.API, Header: iotago.BlockHeader{ProtocolVersion: w.PP.Version(), NetworkID: refNetworkID(w)}, Signature: &iotago.Ed25519Signature{}, Body: body}
			runBlockBuilder(t, w, builder.NewBasicBlockBuilder(w.API), m, func(b *builder.BasicBlockBuilder) (*builder.BasicBlockBuilder, string, bool) {
				switch r.Intn(3) {
				case 0:
					var p iotago.ApplicationPayload
					switch r.Intn(4) {
					case 0:
						p = genTaggedData(r)
					case 1:
						p = genSignedTx(r, w)
					case 2:
						p = &iotago.CandidacyAnnouncement{}
					}
					body.Payload = p

					return b.Payload(p), "Payload", false
				case 1:
					body.MaxBurnedMana = iotago.Mana(ru64(r))

					return b.MaxBurnedMana(body.MaxBurnedMana), "MaxBurned", false
				default:
					rmc := uint64(r.Intn(1000))
					if coin(r, 10) {
						rmc = ru64(r)
					}
					work := refBlockWork(w.PP.WorkScoreParameters(), m)
					cost := new(big.Int).Mul(work, bi(rmc))
					fail := work.BitLen() > 32 || cost.BitLen() > 64
					if !fail {
						body.MaxBurnedMana = iotago.Mana(cost.Uint64())
					}
					t.Count("mana costs calculated")

					return b.CalculateAndSetMaxBurnedMana(iotago.Mana(rmc)), "Calculate", fail
				}
			})
		})

		c.Run("validation-block", c.N(15000, 300000), func(t *Case) {
			r := t.R
			w := pickWorld(r)
			body := &iotago.ValidationBlockBody{API: w.API}
			m := &iotago.Block{API: w.API, Header: iotago.BlockHeader{ProtocolVersion: w.PP.Version(), NetworkID: refNetworkID(w)}, Signature: &iotago.Ed25519Signature{}, Body: body}
			runBlockBuilder(t, w, builder.NewValidationBlockBuilder(w.API), m, func(b *builder.ValidationBlockBuilder) (*builder.ValidationBlockBuilder, string, bool) {
				if coin(r, 2) {
					body.HighestSupportedVersion = iotago.Version(r.Intn(256))

					return b.HighestSupportedVersion(body.HighestSupportedVersion), "Highest", false
				}
				body.ProtocolParametersHash = r32(r)

				return b.ProtocolParametersHash(body.ProtocolParametersHash), "Hash", false
			})
		})

		c.Run("valid-block", c.N(8000, 200000), func(t *Case) {
			r := t.R
			w := pickWorld(r)
			m := genValidBlock(r, w)
			key := keyPool[r.Intn(len(keyPool))]
			shuffled := func(p iotago.BlockIDs) iotago.BlockIDs {
				q := append(iotago.BlockIDs{}, p...)
				for i := r.Intn(3); i > 0 && len(p) > 0; i-- {
					q = append(q, p[r.Intn(len(p))])
				}
				r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })

				return q
			}
			m.Signature = key.sign(refBlockSigningMessage(m))
			var blk *iotago.Block
			var err error
			switch body := m.Body.(type) {
			case *iotago.BasicBlockBody:
				b := builder.NewBasicBlockBuilder(w.API)
				ops := []func(){
					func() { b.IssuingTime(m.Header.IssuingTime) },
					func() {
						b.SlotCommitmentID(m.Header.SlotCommitmentID).LatestFinalizedSlot(m.Header.LatestFinalizedSlot)
					},
					func() { b.StrongParents(shuffled(body.StrongParents)) },
					func() { b.WeakParents(shuffled(body.WeakParents)) },
					func() { b.ShallowLikeParents(shuffled(body.ShallowLikeParents)) },
					func() { b.Payload(body.Payload) },
					func() { b.MaxBurnedMana(body.MaxBurnedMana) },
				}
				r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
				for _, f := range ops {
					f()
				}
				blk, err = b.Sign(m.Header.IssuerID, key.Priv).Build()
			case *iotago.ValidationBlockBody:
				b := builder.NewValidationBlockBuilder(w.API)
				ops := []func(){
					func() { b.IssuingTime(m.Header.IssuingTime) },
					func() {
						b.SlotCommitmentID(m.Header.SlotCommitmentID).LatestFinalizedSlot(m.Header.LatestFinalizedSlot)
					},
					func() { b.StrongParents(shuffled(body.StrongParents)) },
					func() { b.WeakParents(shuffled(body.WeakParents)) },
					func() { b.ShallowLikeParents(shuffled(body.ShallowLikeParents)) },
					func() { b.HighestSupportedVersion(body.HighestSupportedVersion) },
					func() { b.ProtocolParametersHash(body.ProtocolParametersHash) },
				}
				r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
				for _, f := range ops {
					f()
				}
				blk, err = b.Sign(m.Header.IssuerID, key.Priv).Build()
			}
			t.Eval(fmt.Sprintf("valid/%T/%d", m.Body, len(refBlock(m))))
			if !t.Check(err == nil, "block:refused", "%v", err) {
				return
			}
			encd, err := w.API.Encode(blk, serix.WithValidation())
			if !t.Check(err == nil && bytes.Equal(encd, refBlock(m)), "block:content", "%v\nbuilt    %x\nexpected %x", err, encd, refBlock(m)) {
				return
			}
			back := &iotago.Block{}
			_, err = w.API.Decode(encd, back, serix.WithValidation())
			t.Check(err == nil, "block:decode", "the built block does not decode: %v", err)
			ok, err := back.VerifySignature()
			t.Check(err == nil && ok, "block:signature", "the signature does not verify: %v", err)
			t.Count("valid blocks built, decoded and verified")
		})
	})
}
