package main

import (
	"crypto"
	"encoding/binary"
	"fmt"
	"math/rand"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/merklehasher"
	_ "golang.org/x/crypto/blake2b"
)

// genProtoParams generates arbitrary (serializable) protocol parameters.
func genProtoParams(r *rand.Rand) *iotago.V3ProtocolParameters {
	pp := new(iotago.V3ProtocolParameters)
	u8 := func() uint8 { return uint8(r.Intn(256)) }
	bt := func() iotago.BaseToken { return iotago.BaseToken(ru64(r)) }
	ws := func() iotago.WorkScore { return iotago.WorkScore(ru32(r)) }
	mana := func() iotago.Mana { return iotago.Mana(ru64(r)) }
	sc := func() iotago.StorageScore { return iotago.StorageScore(ru64(r)) }
	hrp := []iotago.NetworkPrefix{iotago.PrefixMainnet, iotago.PrefixShimmer, iotago.PrefixTestnet, "verif"}[r.Intn(4)]
	iotago.WithVersion(3)(pp)
	iotago.WithNetworkOptions(rascii(r, rlen(r, 0, 255)), hrp)(pp)
	iotago.WithStorageOptions(bt(), iotago.StorageScoreFactor(u8()), sc(), sc(), sc(), sc())(pp)
	iotago.WithWorkScoreOptions(ws(), ws(), ws(), ws(), ws(), ws(), ws(), ws(), ws(), ws())(pp)
	iotago.WithSupplyOptions(bt(), u8(), u8(), u8(), u8(), u8(), u8())(pp)
	iotago.WithTimeProviderOptions(iotago.SlotIndex(ru32(r)), int64(ru64(r)), u8(), u8())(pp)
	iotago.WithLivenessOptions(ru16(r), ru16(r), iotago.SlotIndex(ru32(r)), iotago.SlotIndex(ru32(r)), iotago.SlotIndex(ru32(r)))(pp)
	iotago.WithCongestionControlOptions(mana(), mana(), mana(), ws(), ws(), ws(), ru32(r), ru32(r))(pp)
	iotago.WithStakingOptions(iotago.EpochIndex(ru32(r)), u8(), iotago.EpochIndex(ru32(r)))(pp)
	iotago.WithVersionSignalingOptions(u8(), u8(), u8())(pp)
	iotago.WithRewardsOptions(u8(), u8(), u8(), ru16(r))(pp)
	iotago.WithTargetCommitteeSize(u8())(pp)
	iotago.WithChainSwitchingThreshold(u8())(pp)
	m := pp.ManaParameters()
	m.DecayFactors = []uint32{}
	for i := rlen(r, 0, 300); i > 0; i-- {
		m.DecayFactors = append(m.DecayFactors, ru32(r))
	}
	m.DecayFactorEpochsSum = ru32(r)
	rw := pp.RewardsParameters()
	rw.BootstrappingDuration, rw.InitialTargetRewardsRate, rw.FinalTargetRewardsRate = iotago.EpochIndex(ru32(r)), mana(), mana()

	return pp
}

// ---- Merkle proofs ----

func refProof[V merklehasher.Value](h merklehasher.MerkleHashable[V]) []byte {
	e := &enc{}
	switch h := h.(type) {
	case *merklehasher.Node[V]:
		return e.u8(0).raw(refProof[V](h.Left)).raw(refProof[V](h.Right)).b
	case *merklehasher.LeafHash[V]:
		return e.u8(1).u8(uint8(len(h.Hash))).raw(h.Hash).b
	case *merklehasher.ValueHash[V]:
		return e.u8(2).u8(uint8(len(h.Hash))).raw(h.Hash).b
	}
	panic(fmt.Sprintf("reference encoder: proof node %T", h))
}

func genMerkleProof(r *rand.Rand) *merklehasher.Proof[iotago.Identifier] {
	n := rlen(r, 1, 40)
	var vals []iotago.Identifier
	for i := 0; i < n; i++ {
		vals = append(vals, r32(r))
	}
	p, err := merklehasher.NewHasher[iotago.Identifier](crypto.BLAKE2b_256).ComputeProofForIndex(vals, r.Intn(n))
	if err != nil {
		panic(err)
	}

	return p
}

func merklehasherProofFromBytes(b []byte) (any, int, error) {
	return merklehasher.ProofFromBytes[iotago.Identifier](b)
}

func merklehasherProofFromJSON(b []byte) (any, error) {
	return merklehasher.ProofFromJSON[iotago.Identifier](b)
}

// ---- blocks ----

// slotStart is the first point in time which belongs to the slot (for slots after the genesis slot).
func slotStart(w *World, slot uint32) time.Time {
	return time.Unix(w.PP.GenesisUnixTimestamp()+int64(slot-uint32(w.PP.GenesisSlot())-1)*int64(w.PP.SlotDurationInSeconds()), 0).UTC()
}

func setSlot(id [36]byte, slot uint32) [36]byte {
	binary.LittleEndian.PutUint32(id[32:], slot)

	return id
}

func idSlot(id [36]byte) uint32 { return binary.LittleEndian.Uint32(id[32:]) }

// refBlockSyntactic checks the rules which are enforced when a block is deserialized with validation.
func refBlockSyntactic(w *World, b *iotago.Block) string {
	var maxParents [3]int
	var parents [3]iotago.BlockIDs
	switch body := b.Body.(type) {
	case *iotago.BasicBlockBody:
		maxParents = [3]int{8, 8, 8}
		parents = [3]iotago.BlockIDs{body.StrongParents, body.WeakParents, body.ShallowLikeParents}
	case *iotago.ValidationBlockBody:
		maxParents = [3]int{50, 50, 50}
		parents = [3]iotago.BlockIDs{body.StrongParents, body.WeakParents, body.ShallowLikeParents}
	}
	nonWeak := map[iotago.BlockID]bool{}
	for i, ids := range parents {
		if len(ids) > maxParents[i] || (i == 0 && len(ids) < 1) {
			return "parents-count"
		}
		for j := range ids {
			if j > 0 && string(ids[j-1][:]) >= string(ids[j][:]) {
				return "parents-order"
			}
			if i != 1 {
				nonWeak[ids[j]] = true
			}
		}
	}
	for _, id := range parents[1] {
		if nonWeak[id] {
			return "weak-parents-not-disjunct"
		}
	}
	if basic, is := b.Body.(*iotago.BasicBlockBody); is {
		switch p := basic.Payload.(type) {
		case *iotago.SignedTransaction:
			if s := refSignedTxDecodes(w, p); s != "" {
				return "tx-" + s
			}
		case *iotago.TaggedData:
			if len(p.Tag) > 64 || len(p.Data) > 8192 {
				return "payload-length"
			}
		}
	}
	if len(refBlock(b)) > 32768 {
		return "block-size"
	}
	if b.Header.ProtocolVersion != w.PP.Version() {
		return "version"
	}
	if b.Header.NetworkID != refNetworkID(w) {
		return "network-id"
	}
	gen, minCA, maxCA := int64(w.PP.GenesisSlot()), int64(w.PP.MinCommittableAge()), int64(w.PP.MaxCommittableAge())
	slot, cs := int64(refSlotAt(w.PP, b.Header.IssuingTime)), int64(idSlot(b.Header.SlotCommitmentID))
	if cs > gen && slot < cs+minCA {
		return "commitment-too-recent"
	}
	if slot > cs+maxCA {
		return "commitment-too-old"
	}
	switch body := b.Body.(type) {
	case *iotago.ValidationBlockBody:
		if body.HighestSupportedVersion < b.Header.ProtocolVersion {
			return "highest-supported-version"
		}
	case *iotago.BasicBlockBody:
		tx, is := body.Payload.(*iotago.SignedTransaction)
		if !is {
			break
		}
		if int64(tx.Transaction.CreationSlot) > slot {
			return "tx-creation-slot"
		}
		for _, ci := range tx.Transaction.TransactionEssence.ContextInputs {
			c, is := ci.(*iotago.CommitmentInput)
			if !is {
				continue
			}
			ts := int64(idSlot(c.CommitmentID))
			if ts > gen && slot < ts+minCA {
				return "commitment-input-too-recent"
			}
			if slot > ts+maxCA {
				return "commitment-input-too-old"
			}
			if ts > cs {
				return "commitment-input-newer"
			}
		}
	}

	return ""
}

// genValidBlock generates a block which passes deserialization with validation. Its signature is random.
func genValidBlock(r *rand.Rand, w *World) *iotago.Block {
	gen, minCA, maxCA := int64(w.PP.GenesisSlot()), int64(w.PP.MinCommittableAge()), int64(w.PP.MaxCommittableAge())
	for {
		b := genBlock(r, w)
		b.Header.ProtocolVersion, b.Header.NetworkID = w.PP.Version(), refNetworkID(w)
		slot := gen + 1 + int64(r.Intn(100000))
		if coin(r, 4) {
			slot = gen + 1 + int64(r.Intn(int(2*maxCA)))
		}
		b.Header.IssuingTime = slotStart(w, uint32(slot)).Add(time.Duration(r.Int63n(int64(w.PP.SlotDurationInSeconds()) * int64(time.Second))))
		if coin(r, 60) {
			slot = gen
			b.Header.IssuingTime = slotStart(w, uint32(gen+1)).Add(-time.Duration(1 + r.Int63n(1e15)))
		}
		pick := func(hi int64) int64 {
			lo := slot - maxCA
			if lo < gen {
				lo = gen
			}
			if hi > slot-minCA {
				hi = slot - minCA
			}
			if hi < lo {
				return lo
			}
			switch r.Intn(4) {
			case 0:
				return lo
			case 1:
				return hi
			}

			return lo + r.Int63n(hi-lo+1)
		}
		cs := pick(slot)
		b.Header.SlotCommitmentID = setSlot(b.Header.SlotCommitmentID, uint32(cs))
		if vb, is := b.Body.(*iotago.ValidationBlockBody); is {
			vb.HighestSupportedVersion = w.PP.Version() + iotago.Version(r.Intn(256-int(w.PP.Version())))
		}
		if bb, is := b.Body.(*iotago.BasicBlockBody); is {
			if _, is := bb.Payload.(*iotago.SignedTransaction); is {
				stx := genValidSignedTx(r, w)
				stx.Transaction.CreationSlot = iotago.SlotIndex(slot - r.Int63n(slot+1))
				if coin(r, 3) {
					stx.Transaction.CreationSlot = iotago.SlotIndex(slot)
				}
				for _, c := range stx.Transaction.TransactionEssence.ContextInputs {
					if ci, is := c.(*iotago.CommitmentInput); is {
						ci.CommitmentID = setSlot(ci.CommitmentID, uint32(pick(cs)))
					}
				}
				bb.Payload = stx
			}
		}
		if refBlockSyntactic(w, b) == "" {
			return b
		}
	}
}
