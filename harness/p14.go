package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
)

func init() { register("P14", p14) }

type blockMut struct {
	name string
	f    func(r *rand.Rand, w *World, b *iotago.Block) bool
}

func parentsOf(b *iotago.Block) [3]*iotago.BlockIDs {
	switch body := b.Body.(type) {
	case *iotago.BasicBlockBody:
		return [3]*iotago.BlockIDs{&body.StrongParents, &body.WeakParents, &body.ShallowLikeParents}
	case *iotago.ValidationBlockBody:
		return [3]*iotago.BlockIDs{&body.StrongParents, &body.WeakParents, &body.ShallowLikeParents}
	}
	panic("unknown body")
}

func sortedIDs(r *rand.Rand, n int) (ids iotago.BlockIDs) {
	ids = iotago.BlockIDs{}
	for i := 0; i < n; i++ {
		id := genSlotID(r)
		id[0], id[1] = byte(i), byte(r.Intn(4))
		ids = append(ids, id)
	}

	return ids
}

func stxOf(b *iotago.Block) (*iotago.SignedTransaction, bool) {
	if body, is := b.Body.(*iotago.BasicBlockBody); is {
		s, is := body.Payload.(*iotago.SignedTransaction)

		return s, is && s != nil
	}

	return nil, false
}

func commitmentOf(s *iotago.SignedTransaction) *iotago.CommitmentInput {
	for _, c := range s.Transaction.TransactionEssence.ContextInputs {
		if ci, is := c.(*iotago.CommitmentInput); is {
			return ci
		}
	}

	return nil
}

func slot32(v int64) uint32 {
	return uint32(max(0, min(v, 1<<32-1)))
}

// setTxBlockSlot puts the slots of the payload where they do not matter for a block of the given slot.
func alignTx(r *rand.Rand, w *World, b *iotago.Block, slot, cs int64) {
	s, is := stxOf(b)
	if !is {
		return
	}
	if int64(s.Transaction.CreationSlot) > slot {
		s.Transaction.CreationSlot = iotago.SlotIndex(slot)
	}
	if ci := commitmentOf(s); ci != nil {
		ci.CommitmentID = setSlot(ci.CommitmentID, slot32(cs))
	}
}

var blockMuts = []blockMut{
	{"none", func(r *rand.Rand, w *World, b *iotago.Block) bool { return true }},
	{"version", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		b.Header.ProtocolVersion = iotago.Version([]int{0, 2, 4, 255, 3}[r.Intn(5)])

		return true
	}},
	{"network", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		b.Header.NetworkID ^= 1 << uint(r.Intn(64))

		return true
	}},
	{"commitment-slot", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		minCA, maxCA := int64(w.PP.MinCommittableAge()), int64(w.PP.MaxCommittableAge())
		slot := int64(refSlotAt(w.PP, b.Header.IssuingTime))
		cs := []int64{slot - minCA - 1, slot - minCA, slot - minCA + 1, slot - maxCA - 1, slot - maxCA, slot - maxCA + 1, slot, slot + 1, 1<<32 - 1, 0, int64(w.PP.GenesisSlot()), int64(w.PP.GenesisSlot()) + 1, int64(w.PP.GenesisSlot()) - 1}[r.Intn(13)]
		cs = int64(slot32(cs))
		b.Header.SlotCommitmentID = setSlot(b.Header.SlotCommitmentID, uint32(cs))
		if coin(r, 2) {
			alignTx(r, w, b, slot, cs)
		}

		return true
	}},
	{"early", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		// just after (or before) the genesis, committing to slots around the genesis
		gen := int64(w.PP.GenesisSlot())
		slot := gen + int64(r.Intn(int(w.PP.MaxCommittableAge())+3))
		b.Header.IssuingTime = time.Unix(w.PP.GenesisUnixTimestamp()+(slot-gen-1)*int64(w.PP.SlotDurationInSeconds())+int64(r.Intn(int(w.PP.SlotDurationInSeconds()))), 0)
		if slot == gen {
			b.Header.IssuingTime = time.Unix(w.PP.GenesisUnixTimestamp()-1-int64(r.Intn(1000000)), 0)
		}
		cs := int64(slot32(gen + int64(r.Intn(5)) - 2))
		b.Header.SlotCommitmentID = setSlot(b.Header.SlotCommitmentID, uint32(cs))
		alignTx(r, w, b, slot, int64(slot32([]int64{cs, cs - 1, cs + 1, gen}[r.Intn(4)])))

		return true
	}},
	{"far", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		// slots near the end of the 32 bit range
		gen := int64(w.PP.GenesisSlot())
		slot := int64(1<<32-1) - int64(r.Intn(40))
		at := w.PP.GenesisUnixTimestamp() + (slot-gen-1)*int64(w.PP.SlotDurationInSeconds())
		if at >= 9_200_000_000 {
			slot = gen + 1 + (9_200_000_000-w.PP.GenesisUnixTimestamp())/int64(w.PP.SlotDurationInSeconds())
			at = w.PP.GenesisUnixTimestamp() + (slot-gen-1)*int64(w.PP.SlotDurationInSeconds())
		}
		b.Header.IssuingTime = time.Unix(at, 0)
		cs := []int64{slot - int64(w.PP.MinCommittableAge()), 1<<32 - 1, 1<<32 - int64(w.PP.MaxCommittableAge()), 1<<32 - int64(w.PP.MaxCommittableAge()) - 1, slot - int64(w.PP.MaxCommittableAge()), slot - int64(w.PP.MaxCommittableAge()) - 1}[r.Intn(6)]
		b.Header.SlotCommitmentID = setSlot(b.Header.SlotCommitmentID, slot32(cs))
		alignTx(r, w, b, slot, []int64{cs, 1<<32 - 1, cs - 1}[r.Intn(3)])

		return true
	}},
	{"issuing-time", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		b.Header.IssuingTime = b.Header.IssuingTime.Add(time.Duration(r.Intn(int(w.PP.MaxCommittableAge())*2+1)-int(w.PP.MaxCommittableAge())) * time.Duration(w.PP.SlotDurationInSeconds()) * time.Second)

		return b.Header.IssuingTime.UnixNano() >= 0
	}},
	{"slot-boundary", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		// the last and first nanosecond of a slot make a difference of one slot
		slot := refSlotAt(w.PP, b.Header.IssuingTime)
		b.Header.IssuingTime = slotStart(w, uint32(slot)+uint32(r.Intn(2))).Add(-time.Duration(r.Intn(2)))

		return true
	}},
	{"parents-count", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		*parentsOf(b)[r.Intn(3)] = sortedIDs(r, []int{0, 1, 7, 8, 9, 49, 50, 51, 2}[r.Intn(9)])

		return true
	}},
	{"parents-order", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		p := parentsOf(b)[r.Intn(3)]
		if len(*p) < 2 {
			*p = sortedIDs(r, 2+r.Intn(7))
		}
		i := r.Intn(len(*p) - 1)
		if coin(r, 2) {
			(*p)[i], (*p)[i+1] = (*p)[i+1], (*p)[i]
		} else {
			(*p)[i+1] = (*p)[i]
		}

		return true
	}},
	{"parents-overlap", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		ps := parentsOf(b)
		i := r.Intn(3)
		j := (i + 1 + r.Intn(2)) % 3
		*ps[i] = sortedIDs(r, 1+r.Intn(6))
		*ps[j] = sortedIDs(r, 1+r.Intn(6))
		k := r.Intn(min(len(*ps[i]), len(*ps[j])))
		(*ps[j])[k] = (*ps[i])[k]
		if coin(r, 3) {
			(*ps[j])[k][35] ^= 1
		}

		return true
	}},
	{"highest-version", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		vb, is := b.Body.(*iotago.ValidationBlockBody)
		if !is {
			return false
		}
		vb.HighestSupportedVersion = b.Header.ProtocolVersion + iotago.Version(r.Intn(3)) - 1

		return true
	}},
	{"creation-slot", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		s, is := stxOf(b)
		if !is {
			return false
		}
		slot := int64(refSlotAt(w.PP, b.Header.IssuingTime))
		s.Transaction.CreationSlot = iotago.SlotIndex(slot32([]int64{slot - 1, slot, slot + 1, 0, 1<<32 - 1}[r.Intn(5)]))

		return true
	}},
	{"commitment-input", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		s, is := stxOf(b)
		if !is {
			return false
		}
		ci := commitmentOf(s)
		if ci == nil {
			ci = &iotago.CommitmentInput{CommitmentID: genSlotID(r)}
			s.Transaction.TransactionEssence.ContextInputs = append(iotago.TxEssenceContextInputs{ci}, s.Transaction.TransactionEssence.ContextInputs...)
		}
		minCA, maxCA := int64(w.PP.MinCommittableAge()), int64(w.PP.MaxCommittableAge())
		slot, cs := int64(refSlotAt(w.PP, b.Header.IssuingTime)), int64(idSlot(b.Header.SlotCommitmentID))
		v := []int64{slot - minCA - 1, slot - minCA, slot - minCA + 1, slot - maxCA - 1, slot - maxCA, slot - maxCA + 1, cs - 1, cs, cs + 1, slot, 1<<32 - 1, 0, int64(w.PP.GenesisSlot())}[r.Intn(13)]
		ci.CommitmentID = setSlot(ci.CommitmentID, slot32(v))

		return true
	}},
	{"transaction", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		s, is := stxOf(b)
		if !is {
			return false
		}
		for {
			m := txMuts[r.Intn(len(txMuts))]
			if !m.f(r, w, s) {
				return false
			}

			return len(s.Transaction.Outputs) > 0 && len(s.Transaction.TransactionEssence.Inputs) > 0
		}
	}},
	{"payload", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		bb, is := b.Body.(*iotago.BasicBlockBody)
		if !is {
			return false
		}
		switch r.Intn(3) {
		case 0:
			bb.Payload = nil
		case 1:
			bb.Payload = &iotago.CandidacyAnnouncement{}
		default:
			bb.Payload = &iotago.TaggedData{Tag: rbytes(r, []int{0, 64, 65}[r.Intn(3)]), Data: rbytes(r, []int{0, 8192, 8193}[r.Intn(3)])}
		}

		return true
	}},
	{"size", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		s, is := stxOf(b)
		if !is {
			return false
		}
		// grow the block with metadata to just around the limit
		tx := s.Transaction
		want := iotago.MaxBlockSize - 2 + r.Intn(5)
		for _, o := range tx.Outputs {
			refSetAmount(o, refMinDeposit(w.PP.StorageScoreParameters(), o).Uint64())
		}
		last := -1
		for try := 0; try < 10; try++ {
			rest := want - len(refBlock(b))
			if rest == 0 {
				break
			}
			if rest < 0 {
				return true
			}
			if last >= 0 && rest < 2000 {
				f := tx.Outputs[last].(*iotago.BasicOutput).Features[0].(*iotago.MetadataFeature)
				if refMapSize(f.Entries)+rest > 8192 {
					return true
				}
				f.Entries["a"] = make([]byte, len(f.Entries["a"])+rest)
			} else {
				if len(tx.Outputs) >= 128 {
					return false
				}
				f := &iotago.MetadataFeature{Entries: iotago.MetadataFeatureEntries{}}
				if !setMapSize(f.Entries, max(100, min(7000, rest-1500))) {
					return false
				}
				o := &iotago.BasicOutput{UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: keyPool[0].ed()}}, Features: iotago.BasicOutputFeatures{f}}
				last = len(tx.Outputs)
				tx.Outputs = append(tx.Outputs, o)
			}
			o := tx.Outputs[last]
			refSetAmount(o, refMinDeposit(w.PP.StorageScoreParameters(), o).Uint64())
		}

		return true
	}},
	{"scalar", func(r *rand.Rand, w *World, b *iotago.Block) bool {
		_, ok := perturb(r, reflect.ValueOf(b))

		return ok
	}},
}

func p14(c *Ctx) {
	c.Rule("valid blocks of every body and payload type and the same with one or two boundary mutations (" + itoa(len(blockMuts)) + " kinds: header, committable ages, genesis and end of the slot range, parents count/order/overlap, versions, payload and transaction rules, block size at 32768±2); accept/reject of validated decoding compared with an independent rule book; the parent lists reported by the block compared with its content; distinct = (body, mutations, verdict).")
	c.Assume("Issuing times are representable (0 <= t < 2^63 ns); only acceptance is compared, not the error category.")
	// a network whose slots end soon
	latePP := newParams("late", 1<<32-1-5000, 1_500_000_000, 10, 6, 7, 21, 40, 10, 3)
	late := &World{"late", iotago.V3API(latePP), latePP}
	block := func(t *Case, w *World) {
		r := t.R
		b := genValidBlock(r, w)
		var names []string
		for k := 0; k <= r.Intn(2)*r.Intn(2); k++ {
			m := blockMuts[(t.Index+k*r.Intn(len(blockMuts)))%len(blockMuts)]
			if m.f(r, w, b) {
				names = append(names, m.name)
			}
			if s, is := stxOf(b); is && (!ucsPresent(s.Transaction) || len(s.Unlocks) == 0) {
				break
			}
		}
		name := strings.Join(names, "+")
		if s, is := stxOf(b); is && (len(s.Transaction.TransactionEssence.Inputs) == 0 || len(s.Transaction.Outputs) == 0) {
			t.Eval("")

			return
		}
		if ns := b.Header.IssuingTime.UnixNano(); ns < 0 || b.Header.IssuingTime.Unix() > 9_223_372_035 {
			t.Eval("")

			return
		}
		raw := refBlock(b)
		t.Note("mutations: %s\nblock: %x", name, raw)
		want := refBlockSyntactic(w, b)
		d := &iotago.Block{API: w.API}
		n, err := w.API.Decode(raw, d, serix.WithValidation())
		t.Eval(join(fmt.Sprintf("%T", b.Body), name, want))
		if want == "" {
			t.Count("accepted")
		} else {
			t.Count("rejected: " + strings.TrimPrefix(want, "tx-"))
		}
		if len(raw) >= iotago.MaxBlockSize-2 && len(raw) <= iotago.MaxBlockSize+2 {
			t.Count(fmt.Sprintf("blocks of %d bytes", len(raw)))
		}
		if (err == nil) != (want == "") {
			t.Violate("block:"+orStr(want, "accepted"), "mutations %s: decoding with validation returned %v, expected %s", name, err, orStr(want, "no error"))

			return
		}
		if err != nil {
			return
		}
		t.Check(n == len(raw), "block:length", "consumed %d of %d bytes", n, len(raw))

		// what the accepted block reports about its parents is its content
		ps := parentsOf(b)
		var all, got []string
		for i, ids := range ps {
			for _, id := range *ids {
				all = append(all, fmt.Sprintf("%d %x", i, id[:]))
			}
		}
		for _, p := range d.ParentsWithType() {
			i := map[iotago.ParentsType]int{iotago.StrongParentType: 0, iotago.WeakParentType: 1, iotago.ShallowLikeParentType: 2}[p.Type]
			got = append(got, fmt.Sprintf("%d %x", i, p.ID[:]))
		}
		t.Check(strings.Join(all, ",") == strings.Join(got, ","), "parents-with-type", "ParentsWithType lists %v, want %v", got, all)
		var each []string
		d.ForEachParent(func(p iotago.Parent) {
			i := map[iotago.ParentsType]int{iotago.StrongParentType: 0, iotago.WeakParentType: 1, iotago.ShallowLikeParentType: 2}[p.Type]
			each = append(each, fmt.Sprintf("%d %x", i, p.ID[:]))
		})
		t.Check(strings.Join(all, ",") == strings.Join(each, ","), "for-each-parent", "ForEachParent lists %v, want %v", each, all)
		flat := ""
		for _, id := range d.Parents() {
			flat += fmt.Sprintf("%x,", id[:])
		}
		wf := ""
		for _, ids := range ps {
			for _, id := range *ids {
				wf += fmt.Sprintf("%x,", id[:])
			}
		}
		t.Check(flat == wf, "parents", "Parents lists %s, want %s", flat, wf)
		t.Check(uint64(d.Slot()) == uint64(refSlotAt(w.PP, b.Header.IssuingTime)), "slot", "the block reports slot %d, its issuing time is in %d", d.Slot(), refSlotAt(w.PP, b.Header.IssuingTime))
		_, isBasic := b.Body.(*iotago.BasicBlockBody)
		t.Check((d.Body.Type() == iotago.BlockBodyTypeBasic) == isBasic, "body-type", "the body type is misreported")
		if t.Index < 4 {
			t.Sample(map[string]any{"mutations": name, "bytes": fmt.Sprintf("%x", raw[:min(len(raw), 80)])})
		}
	}
	c.Run("block", c.N(40000, 1500000), func(t *Case) { block(t, pickWorld(t.R)) })
	c.Run("late", c.N(3000, 100000), func(t *Case) { block(t, late) })
}
