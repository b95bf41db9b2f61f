package main

// Independent reference encoder of the wire format: it walks the exported fields of the protocol objects and writes the
// bytes by hand, without any function of the code under test.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"time"

	"golang.org/x/crypto/blake2b"

	iotago "github.com/iotaledger/iota.go/v4"
)

type enc struct{ b []byte }

func (e *enc) u8(v uint8) *enc   { e.b = append(e.b, v); return e }
func (e *enc) u16(v uint16) *enc { e.b = binary.LittleEndian.AppendUint16(e.b, v); return e }
func (e *enc) u32(v uint32) *enc { e.b = binary.LittleEndian.AppendUint32(e.b, v); return e }
func (e *enc) u64(v uint64) *enc { e.b = binary.LittleEndian.AppendUint64(e.b, v); return e }
func (e *enc) raw(v []byte) *enc { e.b = append(e.b, v...); return e }
func (e *enc) u256(v *big.Int) *enc {
	var be [32]byte
	v.FillBytes(be[:])
	for i := 31; i >= 0; i-- {
		e.b = append(e.b, be[i])
	}

	return e
}

func b32(v []byte) []byte {
	if len(v) != 32 {
		panic(fmt.Sprintf("reference encoder: %d bytes instead of 32", len(v)))
	}

	return v
}

func refAddr(a iotago.Address) []byte {
	e := &enc{}
	switch a := a.(type) {
	case *iotago.Ed25519Address:
		e.u8(0).raw(a[:])
	case *iotago.AccountAddress:
		e.u8(8).raw(a[:])
	case *iotago.NFTAddress:
		e.u8(16).raw(a[:])
	case *iotago.AnchorAddress:
		e.u8(24).raw(a[:])
	case *iotago.ImplicitAccountCreationAddress:
		e.u8(32).raw(a[:])
	case *iotago.MultiAddress:
		e.u8(40).u8(uint8(len(a.Addresses)))
		for _, x := range a.Addresses {
			e.raw(refAddr(x.Address)).u8(x.Weight)
		}
		e.u16(a.Threshold)
	case *iotago.RestrictedAddress:
		e.u8(48).raw(refAddr(a.Address)).u8(uint8(len(a.AllowedCapabilities))).raw(a.AllowedCapabilities)
	default:
		panic(fmt.Sprintf("reference encoder: address %T", a))
	}

	return e.b
}

func blake(parts ...[]byte) (out [32]byte) {
	var all []byte
	for _, p := range parts {
		all = append(all, p...)
	}

	return blake2b.Sum256(all)
}

// refAddrID is the identifier of an address: multi addresses are identified by their hash.
func refAddrID(a iotago.Address) []byte {
	switch x := a.(type) {
	case *iotago.MultiAddress:
		h := blake(refAddr(x))

		return append([]byte{40}, h[:]...)
	case *iotago.RestrictedAddress:
		e := &enc{}
		e.u8(48).raw(refAddrID(x.Address)).u8(uint8(len(x.AllowedCapabilities))).raw(x.AllowedCapabilities)

		return e.b
	default:
		return refAddr(a)
	}
}

func refBIKey(k iotago.BlockIssuerKey) []byte {
	x := k.(*iotago.Ed25519PublicKeyHashBlockIssuerKey)

	return append([]byte{0}, x.PublicKeyHash[:]...)
}

func refEntries[K ~string, V ~[]byte](e *enc, m map[K]V) {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, string(k))
	}
	// entries are ordered by their encoded form, i.e. by the length prefixed key
	sort.Slice(keys, func(i, j int) bool {
		if len(keys[i]) != len(keys[j]) {
			return len(keys[i]) < len(keys[j])
		}

		return keys[i] < keys[j]
	})
	e.u8(uint8(len(m)))
	for _, k := range keys {
		e.u8(uint8(len(k))).raw([]byte(k)).u16(uint16(len(m[K(k)]))).raw(m[K(k)])
	}
}

func refFeature(f iotago.Feature) []byte {
	e := &enc{}
	switch f := f.(type) {
	case *iotago.SenderFeature:
		e.u8(0).raw(refAddr(f.Address))
	case *iotago.IssuerFeature:
		e.u8(1).raw(refAddr(f.Address))
	case *iotago.MetadataFeature:
		e.u8(2)
		refEntries(e, f.Entries)
	case *iotago.StateMetadataFeature:
		e.u8(3)
		refEntries(e, f.Entries)
	case *iotago.TagFeature:
		e.u8(4).u8(uint8(len(f.Tag))).raw(f.Tag)
	case *iotago.NativeTokenFeature:
		e.u8(5).raw(f.ID[:]).u256(f.Amount)
	case *iotago.BlockIssuerFeature:
		e.u8(6).u32(uint32(f.ExpirySlot)).u8(uint8(len(f.BlockIssuerKeys)))
		for _, k := range f.BlockIssuerKeys {
			e.raw(refBIKey(k))
		}
	case *iotago.StakingFeature:
		e.u8(7).u64(uint64(f.StakedAmount)).u64(uint64(f.FixedCost)).u32(uint32(f.StartEpoch)).u32(uint32(f.EndEpoch))
	default:
		panic(fmt.Sprintf("reference encoder: feature %T", f))
	}

	return e.b
}

func refUC(u iotago.UnlockCondition) []byte {
	e := &enc{}
	switch u := u.(type) {
	case *iotago.AddressUnlockCondition:
		e.u8(0).raw(refAddr(u.Address))
	case *iotago.StorageDepositReturnUnlockCondition:
		e.u8(1).raw(refAddr(u.ReturnAddress)).u64(uint64(u.Amount))
	case *iotago.TimelockUnlockCondition:
		e.u8(2).u32(uint32(u.Slot))
	case *iotago.ExpirationUnlockCondition:
		e.u8(3).raw(refAddr(u.ReturnAddress)).u32(uint32(u.Slot))
	case *iotago.StateControllerAddressUnlockCondition:
		e.u8(4).raw(refAddr(u.Address))
	case *iotago.GovernorAddressUnlockCondition:
		e.u8(5).raw(refAddr(u.Address))
	case *iotago.ImmutableAccountUnlockCondition:
		e.u8(6).raw(refAddr(u.Address))
	default:
		panic(fmt.Sprintf("reference encoder: unlock condition %T", u))
	}

	return e.b
}

func refUCs[T iotago.UnlockCondition](e *enc, ucs []T) *enc {
	e.u8(uint8(len(ucs)))
	for _, u := range ucs {
		e.raw(refUC(u))
	}

	return e
}

func refFeats[T iotago.Feature](e *enc, fs []T) *enc {
	e.u8(uint8(len(fs)))
	for _, f := range fs {
		e.raw(refFeature(f))
	}

	return e
}

func refOutput(o iotago.Output) []byte {
	e := &enc{}
	switch o := o.(type) {
	case *iotago.BasicOutput:
		e.u8(0).u64(uint64(o.Amount)).u64(uint64(o.Mana))
		refFeats(refUCs(e, o.UnlockConditions), o.Features)
	case *iotago.AccountOutput:
		e.u8(1).u64(uint64(o.Amount)).u64(uint64(o.Mana)).raw(o.AccountID[:]).u32(o.FoundryCounter)
		refFeats(refFeats(refUCs(e, o.UnlockConditions), o.Features), o.ImmutableFeatures)
	case *iotago.AnchorOutput:
		e.u8(2).u64(uint64(o.Amount)).u64(uint64(o.Mana)).raw(o.AnchorID[:]).u32(o.StateIndex)
		refFeats(refFeats(refUCs(e, o.UnlockConditions), o.Features), o.ImmutableFeatures)
	case *iotago.FoundryOutput:
		ts := o.TokenScheme.(*iotago.SimpleTokenScheme)
		e.u8(3).u64(uint64(o.Amount)).u32(o.SerialNumber).u8(0).u256(ts.MintedTokens).u256(ts.MeltedTokens).u256(ts.MaximumSupply)
		refFeats(refFeats(refUCs(e, o.UnlockConditions), o.Features), o.ImmutableFeatures)
	case *iotago.NFTOutput:
		e.u8(4).u64(uint64(o.Amount)).u64(uint64(o.Mana)).raw(o.NFTID[:])
		refFeats(refFeats(refUCs(e, o.UnlockConditions), o.Features), o.ImmutableFeatures)
	case *iotago.DelegationOutput:
		e.u8(5).u64(uint64(o.Amount)).u64(uint64(o.DelegatedAmount)).raw(o.DelegationID[:]).raw(refAddr(o.ValidatorAddress)).u32(uint32(o.StartEpoch)).u32(uint32(o.EndEpoch))
		refUCs(e, o.UnlockConditions)
	default:
		panic(fmt.Sprintf("reference encoder: output %T", o))
	}

	return e.b
}

func refContextInput(c any) []byte {
	e := &enc{}
	switch c := c.(type) {
	case *iotago.CommitmentInput:
		e.u8(0).raw(c.CommitmentID[:])
	case *iotago.BlockIssuanceCreditInput:
		e.u8(1).raw(c.AccountID[:])
	case *iotago.RewardInput:
		e.u8(2).u16(c.Index)
	default:
		panic(fmt.Sprintf("reference encoder: context input %T", c))
	}

	return e.b
}

func refPayload(p any) []byte {
	switch p := p.(type) {
	case *iotago.TaggedData:
		e := &enc{}

		return e.u8(0).u8(uint8(len(p.Tag))).raw(p.Tag).u32(uint32(len(p.Data))).raw(p.Data).b
	case *iotago.SignedTransaction:
		return refSignedTx(p)
	case *iotago.CandidacyAnnouncement:
		return []byte{2}
	default:
		panic(fmt.Sprintf("reference encoder: payload %T", p))
	}
}

// refEssence encodes a transaction without its outputs.
func refEssence(tx *iotago.TransactionEssence) []byte {
	e := &enc{}
	e.u64(tx.NetworkID).u32(uint32(tx.CreationSlot))
	e.u16(uint16(len(tx.ContextInputs)))
	for _, c := range tx.ContextInputs {
		e.raw(refContextInput(c))
	}
	e.u16(uint16(len(tx.Inputs)))
	for _, in := range tx.Inputs {
		u := in.(*iotago.UTXOInput)
		e.u8(0).raw(u.TransactionID[:]).u16(u.TransactionOutputIndex)
	}
	e.u16(uint16(len(tx.Allotments)))
	for _, a := range tx.Allotments {
		e.raw(a.AccountID[:]).u64(uint64(a.Mana))
	}
	e.u8(uint8(len(tx.Capabilities))).raw(tx.Capabilities)
	if tx.Payload == nil {
		e.u32(0)
	} else {
		p := refPayload(tx.Payload)
		e.u32(uint32(len(p))).raw(p)
	}

	return e.b
}

func refOutputs(outs iotago.TxEssenceOutputs) []byte {
	e := &enc{}
	e.u16(uint16(len(outs)))
	for _, o := range outs {
		e.raw(refOutput(o))
	}

	return e.b
}

func refTx(tx *iotago.Transaction) []byte {
	return append(refEssence(tx.TransactionEssence), refOutputs(tx.Outputs)...)
}

func refSig(s iotago.Signature) []byte {
	x := s.(*iotago.Ed25519Signature)
	e := &enc{}

	return e.u8(0).raw(x.PublicKey[:]).raw(x.Signature[:]).b
}

func refUnlock(u iotago.Unlock) []byte {
	e := &enc{}
	switch u := u.(type) {
	case *iotago.SignatureUnlock:
		e.u8(0).raw(refSig(u.Signature))
	case *iotago.ReferenceUnlock:
		e.u8(1).u16(u.Reference)
	case *iotago.AccountUnlock:
		e.u8(2).u16(u.Reference)
	case *iotago.AnchorUnlock:
		e.u8(3).u16(u.Reference)
	case *iotago.NFTUnlock:
		e.u8(4).u16(u.Reference)
	case *iotago.MultiUnlock:
		e.u8(5).u8(uint8(len(u.Unlocks)))
		for _, x := range u.Unlocks {
			e.raw(refUnlock(x))
		}
	case *iotago.EmptyUnlock:
		e.u8(6)
	default:
		panic(fmt.Sprintf("reference encoder: unlock %T", u))
	}

	return e.b
}

func refUnlocks(us iotago.Unlocks) []byte {
	e := &enc{}
	e.u16(uint16(len(us)))
	for _, u := range us {
		e.raw(refUnlock(u))
	}

	return e.b
}

func refSignedTx(t *iotago.SignedTransaction) []byte {
	return append(append([]byte{1}, refTx(t.Transaction)...), refUnlocks(t.Unlocks)...)
}

func refTime(t time.Time) uint64 { return uint64(t.UnixNano()) }

func refHeader(h *iotago.BlockHeader) []byte {
	e := &enc{}

	return e.u8(uint8(h.ProtocolVersion)).u64(h.NetworkID).u64(refTime(h.IssuingTime)).raw(h.SlotCommitmentID[:]).u32(uint32(h.LatestFinalizedSlot)).raw(h.IssuerID[:]).b
}

func refIDs(e *enc, ids iotago.BlockIDs) *enc {
	e.u8(uint8(len(ids)))
	for _, id := range ids {
		e.raw(id[:])
	}

	return e
}

func refBody(b iotago.BlockBody) []byte {
	e := &enc{}
	switch b := b.(type) {
	case *iotago.BasicBlockBody:
		e.u8(0)
		refIDs(refIDs(refIDs(e, b.StrongParents), b.WeakParents), b.ShallowLikeParents)
		if b.Payload == nil {
			e.u32(0)
		} else {
			p := refPayload(b.Payload)
			e.u32(uint32(len(p))).raw(p)
		}
		e.u64(uint64(b.MaxBurnedMana))
	case *iotago.ValidationBlockBody:
		e.u8(1)
		refIDs(refIDs(refIDs(e, b.StrongParents), b.WeakParents), b.ShallowLikeParents)
		e.u8(uint8(b.HighestSupportedVersion)).raw(b.ProtocolParametersHash[:])
	default:
		panic(fmt.Sprintf("reference encoder: body %T", b))
	}

	return e.b
}

func refBlock(b *iotago.Block) []byte {
	return append(append(refHeader(&b.Header), refBody(b.Body)...), refSig(b.Signature)...)
}

func refAttestation(a *iotago.Attestation) []byte {
	return append(append(refHeader(&a.Header), a.BodyHash[:]...), refSig(a.Signature)...)
}

func refCommitment(c *iotago.Commitment) []byte {
	e := &enc{}

	return e.u8(uint8(c.ProtocolVersion)).u32(uint32(c.Slot)).raw(c.PreviousCommitmentID[:]).raw(c.RootsID[:]).u64(c.CumulativeWeight).u64(uint64(c.ReferenceManaCost)).b
}

func refRoots(r *iotago.Roots) []byte {
	e := &enc{}
	for _, x := range []iotago.Identifier{r.TangleRoot, r.StateMutationRoot, r.StateRoot, r.AccountRoot, r.AttestationsRoot, r.CommitteeRoot, r.RewardsRoot, r.ProtocolParametersHash} {
		e.raw(x[:])
	}

	return e.b
}

func refParams(p *iotago.V3ProtocolParameters) []byte {
	e := &enc{}
	e.u8(0).u8(uint8(p.Version()))
	e.u8(uint8(len(p.NetworkName()))).raw([]byte(p.NetworkName()))
	e.u8(uint8(len(p.Bech32HRP()))).raw([]byte(p.Bech32HRP()))
	s := p.StorageScoreParameters()
	e.u64(uint64(s.StorageCost)).u8(uint8(s.FactorData)).u64(uint64(s.OffsetOutputOverhead)).u64(uint64(s.OffsetEd25519BlockIssuerKey)).u64(uint64(s.OffsetStakingFeature)).u64(uint64(s.OffsetDelegation))
	w := p.WorkScoreParameters()
	for _, x := range []iotago.WorkScore{w.DataByte, w.Block, w.Input, w.ContextInput, w.Output, w.NativeToken, w.Staking, w.BlockIssuer, w.Allotment, w.SignatureEd25519} {
		e.u32(uint32(x))
	}
	m := p.ManaParameters()
	e.u8(m.BitsCount).u8(m.GenerationRate).u8(m.GenerationRateExponent).u16(uint16(len(m.DecayFactors)))
	for _, f := range m.DecayFactors {
		e.u32(f)
	}
	e.u8(m.DecayFactorsExponent).u32(m.DecayFactorEpochsSum).u8(m.DecayFactorEpochsSumExponent).u8(m.AnnualDecayFactorPercentage)
	e.u64(uint64(p.TokenSupply())).u32(uint32(p.GenesisSlot())).u64(uint64(p.GenesisUnixTimestamp())).u8(p.SlotDurationInSeconds()).u8(p.SlotsPerEpochExponent())
	e.u32(uint32(p.StakingUnbondingPeriod())).u8(p.ValidationBlocksPerSlot()).u32(uint32(p.PunishmentEpochs()))
	e.u16(uint16(p.LivenessThresholdLowerBound() / time.Second)).u16(uint16(p.LivenessThresholdUpperBound() / time.Second))
	e.u32(uint32(p.MinCommittableAge())).u32(uint32(p.MaxCommittableAge())).u32(uint32(p.EpochNearingThreshold()))
	c := p.CongestionControlParameters()
	e.u64(uint64(c.MinReferenceManaCost)).u64(uint64(c.Increase)).u64(uint64(c.Decrease)).u32(uint32(c.IncreaseThreshold)).u32(uint32(c.DecreaseThreshold)).u32(uint32(c.SchedulerRate)).u32(c.MaxBufferSize).u32(c.MaxValidationBufferSize)
	v := p.VersionSignalingParameters()
	e.u8(v.WindowSize).u8(v.WindowTargetRatio).u8(v.ActivationOffset)
	r := p.RewardsParameters()
	e.u8(r.ProfitMarginExponent).u32(uint32(r.BootstrappingDuration)).u8(r.RewardToGenerationRatio).u64(uint64(r.InitialTargetRewardsRate)).u64(uint64(r.FinalTargetRewardsRate)).u8(r.PoolCoefficientExponent).u16(r.RetentionPeriod)
	e.u8(p.TargetCommitteeSize()).u8(p.ChainSwitchingThreshold())

	return e.b
}

// ---- reference identifiers ----

func slotID(h [32]byte, slot uint32) (out [36]byte) {
	copy(out[:32], h[:])
	binary.LittleEndian.PutUint32(out[32:], slot)

	return out
}

// refMerkle is the root of the Merkle tree described in RFC 6962 with the leaf prefix 0 and the node prefix 1.
func refMerkle(leaves [][]byte) [32]byte {
	if len(leaves) == 0 {
		return blake()
	}
	if len(leaves) == 1 {
		return blake([]byte{0}, leaves[0])
	}
	k := 1
	for k*2 < len(leaves) {
		k *= 2
	}
	l, r := refMerkle(leaves[:k]), refMerkle(leaves[k:])

	return blake([]byte{1}, l[:], r[:])
}

func refOutputCommitment(outs iotago.TxEssenceOutputs) [32]byte {
	var leaves [][]byte
	for _, o := range outs {
		leaves = append(leaves, refOutput(o))
	}

	return refMerkle(leaves)
}

func refTxID(tx *iotago.Transaction) iotago.TransactionID {
	tc := blake(refEssence(tx.TransactionEssence))
	oc := refOutputCommitment(tx.Outputs)

	return slotID(blake(tc[:], oc[:]), uint32(tx.CreationSlot))
}

func refOutputID(txID iotago.TransactionID, index uint16) (id iotago.OutputID) {
	copy(id[:], txID[:])
	binary.LittleEndian.PutUint16(id[36:], index)

	return id
}

func refSignedTxID(t *iotago.SignedTransaction) iotago.SignedTransactionID {
	return slotID(blake(refTx(t.Transaction), refUnlocks(t.Unlocks)), uint32(t.Transaction.CreationSlot))
}

// refSlotAt computes the slot of a point in time.
func refSlotAt(pp iotago.ProtocolParameters, tm time.Time) uint32 {
	gen := pp.GenesisUnixTimestamp()
	if tm.Unix() < gen {
		return uint32(pp.GenesisSlot())
	}

	return uint32(pp.GenesisSlot()) + uint32((tm.Unix()-gen)/int64(pp.SlotDurationInSeconds())) + 1
}

func refBlockID(w *World, b *iotago.Block) iotago.BlockID {
	hh, bh := blake(refHeader(&b.Header)), blake(refBody(b.Body))

	return slotID(blake(hh[:], bh[:], refSig(b.Signature)), refSlotAt(w.PP, b.Header.IssuingTime))
}

// refBlockSigningMessage is what a block issuer signs.
func refBlockSigningMessage(b *iotago.Block) []byte {
	hh, bh := blake(refHeader(&b.Header)), blake(refBody(b.Body))

	return append(append([]byte{}, hh[:]...), bh[:]...)
}

func refCommitmentID(c *iotago.Commitment) iotago.CommitmentID {
	return slotID(blake(refCommitment(c)), uint32(c.Slot))
}
