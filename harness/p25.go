package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"sort"

	"github.com/iotaledger/hive.go/serializer/v2/serix"
	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/builder"
	"github.com/iotaledger/iota.go/v4/vm/nova"
)

// P25: the transaction builder.

// signerOf makes a signer of the keys in one of the supported ways.
func signerOf(t *Case, keys []keyPair) iotago.AddressSigner {
	if coin(t.R, 2) {
		var ks []ed25519.PrivateKey
		for _, k := range keys {
			ks = append(ks, k.Priv)
		}

		return iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(ks...)
	}
	var aks []iotago.AddressKeys
	for _, k := range keys {
		if coin(t.R, 3) {
			ra := iotago.RestrictedAddressWithCapabilities(k.ed(), iotago.WithAddressCanReceiveMana(coin(t.R, 2)))
			ak, err := iotago.NewAddressKeysForRestrictedEd25519Address(ra, k.Priv)
			if err != nil {
				panic(err)
			}
			aks = append(aks, ak)
		} else {
			aks = append(aks, iotago.NewAddressKeysForEd25519Address(k.ed(), k.Priv))
		}
		aks = append(aks, iotago.NewAddressKeysForImplicitAccountCreationAddress(k.implicit(), k.Priv))
	}

	return iotago.NewInMemoryAddressSigner(aks...)
}

// builderPlan tells which address unlocks every input and whether the builder can unlock them.
func builderPlan(sc *vmScene, known func(a iotago.Address) bool) (targets []iotago.Address, problem string) {
	var past, future uint64
	if sc.commitment != nil {
		past = uint64(sc.commitment.Slot) + uint64(sc.w.PP.MaxCommittableAge())
		future = uint64(sc.commitment.Slot) + uint64(sc.w.PP.MinCommittableAge())
	}
	outChains := refOutChains(sc.stx.Transaction)
	chains := map[string]bool{}
	for i, o := range sc.ins {
		owner, reason := refOwner(sc, outChains, i, o, past, future)
		if reason != "" {
			return nil, "skip: " + reason
		}
		targets = append(targets, owner)
		switch owner.(type) {
		case *iotago.AccountAddress, *iotago.AnchorAddress, *iotago.NFTAddress:
			if !chains[akey(owner)] {
				problem = join(problem, fmt.Sprintf("input %d: chain not unlocked before", i))
			}
		case *iotago.Ed25519Address, *iotago.ImplicitAccountCreationAddress:
			if !known(owner) {
				problem = join(problem, fmt.Sprintf("input %d: key not known", i))
			}
		default:
			problem = join(problem, fmt.Sprintf("input %d: unsupported owner", i))
		}
		if _, is := o.(*iotago.BasicOutput); !is {
			if _, a := chainOf(o, sc.ids[i]); a != nil {
				chains[akey(a)] = true
			}
		}
	}

	return targets, problem
}

// fillBuilder makes a builder with everything of the scene's transaction, context inputs and allotments in random order.
func fillBuilder(t *Case, sc *vmScene, targets []iotago.Address, signer iotago.AddressSigner, withAllotments bool) *builder.TransactionBuilder {
	r := t.R
	tx := sc.stx.Transaction
	b := builder.NewTransactionBuilder(sc.w.API, signer)
	ops := []func(){
		func() {
			for i, o := range sc.ins {
				b.AddInput(&builder.TxInput{UnlockTarget: targets[i], InputID: sc.ids[i], Input: o})
			}
		},
		func() {
			for _, o := range tx.Outputs {
				b.AddOutput(o.Clone())
			}
		},
		func() { b.SetCreationSlot(tx.CreationSlot) },
	}
	for _, ci := range tx.TransactionEssence.ContextInputs {
		ci := ci
		ops = append(ops, func() {
			switch c := ci.(type) {
			case *iotago.CommitmentInput:
				b.AddCommitmentInput(c)
			case *iotago.BlockIssuanceCreditInput:
				b.AddBlockIssuanceCreditInput(c)
			case *iotago.RewardInput:
				b.AddRewardInput(c, iotago.Mana(sc.rewards[int(c.Index)]))
			}
		})
	}
	if withAllotments {
		for _, a := range tx.Allotments {
			a := a
			ops = append(ops, func() {
				if a.Mana > 1 && coin(r, 2) { // in two steps
					x := iotago.Mana(r.Int63n(int64(min(uint64(a.Mana), 1<<62))))
					b.IncreaseAllotment(a.AccountID, x)
					b.IncreaseAllotment(a.AccountID, a.Mana-x)

					return
				}
				b.IncreaseAllotment(a.AccountID, a.Mana)
			})
		}
	}
	if len(tx.Capabilities) > 0 {
		ops = append(ops, func() { b.WithTransactionCapabilities(tx.Capabilities) })
	}
	if tx.TransactionEssence.Payload != nil {
		ops = append(ops, func() { b.AddTaggedDataPayload(tx.TransactionEssence.Payload.(*iotago.TaggedData)) })
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	for _, f := range ops {
		f()
	}
	t.Check(b.CreationSlot() == tx.CreationSlot, "build:creation-slot", "CreationSlot is %d, was set to %d", b.CreationSlot(), tx.CreationSlot)

	return b
}

// with returns the scene with another signed transaction.
func (sc *vmScene) with(stx *iotago.SignedTransaction) *vmScene {
	n := *sc
	n.stx = stx

	return &n
}

func keyKnown(keys []keyPair) func(a iotago.Address) bool {
	return func(a iotago.Address) bool {
		for _, k := range keys {
			if bytes.Equal(refAddr(a)[1:], refAddr(k.ed())[1:]) {
				return true
			}
		}

		return false
	}
}

// vmAccepts runs the virtual machine on the scene.
func vmAccepts(sc *vmScene) error {
	m := nova.NewVirtualMachine()
	unlocked, err := m.ValidateUnlocks(sc.stx, sc.resolved())
	if err != nil {
		return fmt.Errorf("unlocks: %w", err)
	}
	_, err = m.Execute(sc.stx.Transaction, sc.resolved(), unlocked)

	return err
}

// refAvailable is the reference of what the builder reports as available mana.
type refAvailable struct {
	potential, stored, unbound, unboundPotential, unboundStored, rewards *big.Int
	bound                                                                map[iotago.AccountID]*big.Int
	bad                                                                  bool
}

func availableMana(sc *vmScene, target iotago.SlotIndex) *refAvailable {
	a := &refAvailable{new(big.Int), new(big.Int), new(big.Int), new(big.Int), new(big.Int), new(big.Int), map[iotago.AccountID]*big.Int{}, false}
	mr := manaOf(sc.w.PP)
	for i, o := range sc.ins {
		slot := refIDSlot(sc.ids[i])
		s := mr.decaySlots(bi(refStoredMana(o)), slot, uint64(target))
		p := refPotentialMana(sc.w.PP, o, iotago.SlotIndex(slot), target)
		if s == nil || p == nil {
			a.bad = true

			return a
		}
		a.potential.Add(a.potential, p)
		a.stored.Add(a.stored, s)
		var id iotago.AccountID
		switch o := o.(type) {
		case *iotago.AccountOutput:
			id = iotago.AccountID(refChain32(o.AccountID, sc.ids[i]))
		case *iotago.BasicOutput:
			if isImplicit(addrUC(o)) {
				id = iotago.AccountID(blake(sc.ids[i][:]))
			}
		}
		if !zero32(id) {
			if a.bound[id] == nil {
				a.bound[id] = new(big.Int)
			}
			a.bound[id].Add(a.bound[id], s).Add(a.bound[id], p)

			continue
		}
		a.unboundPotential.Add(a.unboundPotential, p)
		a.unboundStored.Add(a.unboundStored, s)
		a.unbound.Add(a.unbound, s).Add(a.unbound, p)
	}
	for _, r := range sc.rewards {
		a.rewards.Add(a.rewards, bi(r))
	}
	a.unbound.Add(a.unbound, a.rewards)
	if a.unbound.BitLen() > 64 || new(big.Int).Add(a.potential, a.stored).BitLen() > 64 {
		a.bad = true
	}

	return a
}

func (a *refAvailable) spend(id iotago.AccountID, m uint64) {
	rest := bi(m)
	if b := a.bound[id]; b != nil {
		x := rest
		if b.Cmp(rest) < 0 {
			x = new(big.Int).Set(b)
		}
		x = new(big.Int).Set(x)
		b.Sub(b, x)
		rest = new(big.Int).Sub(rest, x)
	}
	a.unbound.Sub(a.unbound, rest)
}

// lockedTo returns the account the mana of an output is locked to.
func lockedTo(sc *vmScene, o iotago.Output, create uint64) (id iotago.AccountID) {
	switch o := o.(type) {
	case *iotago.AccountOutput:
		return o.AccountID
	case *iotago.BasicOutput, *iotago.NFTOutput:
		tl, has := getUC[*iotago.TimelockUnlockCondition](o)
		if has && uint64(tl.Slot) > create+2*uint64(sc.w.PP.MaxCommittableAge()) {
			if a, is := addrUC(o).(*iotago.AccountAddress); is {
				return iotago.AccountID(*a)
			}
		}
	}

	return id
}

type allotMap map[iotago.AccountID]uint64

func (m allotMap) list() (l iotago.Allotments) {
	for id, v := range m {
		if v > 0 {
			l = append(l, &iotago.Allotment{AccountID: id, Mana: iotago.Mana(v)})
		}
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i].AccountID[:], l[j].AccountID[:]) < 0 })

	return l
}

// remaining subtracts outputs and allotments; nil if they spend more than there is.
func remainingMana(sc *vmScene, outs iotago.TxEssenceOutputs, allot allotMap, create uint64, target iotago.SlotIndex) *refAvailable {
	a := availableMana(sc, target)
	if a.bad {
		return nil
	}
	for _, o := range outs {
		a.spend(lockedTo(sc, o, create), refStoredMana(o))
	}
	for id, m := range allot {
		a.spend(id, m)
	}
	if a.unbound.Sign() < 0 {
		return nil
	}

	return a
}

func (a *refAvailable) same(g *builder.AvailableManaResult, full bool) string {
	d := ""
	cmp := func(name string, want *big.Int, got iotago.Mana) {
		if want.Cmp(bi(uint64(got))) != 0 {
			d = join(d, fmt.Sprintf("%s is %d, expected %s", name, got, want))
		}
	}
	cmp("UnboundMana", a.unbound, g.UnboundMana)
	if full {
		cmp("PotentialMana", a.potential, g.PotentialMana)
		cmp("StoredMana", a.stored, g.StoredMana)
		cmp("UnboundPotentialMana", a.unboundPotential, g.UnboundPotentialMana)
		cmp("UnboundStoredMana", a.unboundStored, g.UnboundStoredMana)
		cmp("Rewards", a.rewards, g.Rewards)
	}
	for id, m := range a.bound {
		cmp("AccountBoundMana["+id.ToHex()+"]", m, g.AccountBoundMana[id])
	}
	for id, m := range g.AccountBoundMana {
		if a.bound[id] == nil && m != 0 {
			d = join(d, fmt.Sprintf("AccountBoundMana[%s] is %d, expected none", id, m))
		}
	}

	return d
}

func init() {
	register("P25", func(c *Ctx) {
		c.Rule("rebuild: transactions of all kinds of moves are entered into a builder in random order; the built transaction must be exactly that transaction and the virtual machine must accept its unlocks; with unknown keys, multi addresses and chains in the wrong order it must refuse")
		c.Rule("mana: the same scenes without mana on the output side; the builder's available mana, allotments and stored mana are compared with a big integer model, the result executed by the virtual machine without permission to burn mana")
		c.Rule("clone: operations on a clone or on the original, the other one builds the same transaction as before")
		c.Assume("Anchors which an input is owned by make a state transition (the builder does not look at the transition)")
		c.Assume("The builder's TotalMana (which leaves out rewards) is not specified and not judged")

		c.Run("rebuild", c.N(9000, 250000), func(t *Case) {
			r := t.R
			g := genVM(r)
			sc := g.assemble()
			if coin(r, 4) {
				sc.stx.Transaction.TransactionEssence.Payload = genTaggedData(r)
			}
			if vmUndecided(sc) != "" {
				return
			}
			keys := g.keys
			if coin(r, 8) {
				keys = keys[1+r.Intn(3):]
			}
			if coin(r, 12) { // inputs in another order
				r.Shuffle(len(sc.ins), func(i, j int) {
					ins := sc.stx.Transaction.TransactionEssence.Inputs
					sc.ins[i], sc.ins[j] = sc.ins[j], sc.ins[i]
					sc.ids[i], sc.ids[j] = sc.ids[j], sc.ids[i]
					ins[i], ins[j] = ins[j], ins[i]
				})
				if len(sc.rewards) > 0 {
					return
				}
			}
			targets, problem := builderPlan(sc, keyKnown(keys))
			if targets == nil {
				return
			}
			for i := range targets { // the restricted address itself may be given as well
				if a := addrUC(sc.ins[i]); a != nil && coin(r, 2) && akey(underlying(a)) == akey(targets[i]) {
					targets[i] = a
				}
			}
			want := refTx(sc.stx.Transaction)
			b := fillBuilder(t, sc, targets, signerOf(t, keys), true)
			stx, err := b.Build()
			kinds := ""
			for i, o := range sc.ins {
				kinds += fmt.Sprintf("%T/%T ", o, targets[i])
			}
			t.Eval(fmt.Sprintf("rebuild/%v/%s", problem == "", kinds))
			if problem != "" {
				t.Count("transactions the builder must refuse")
				t.Check(err != nil, "build:accepted", "the builder built although %s", problem)

				return
			}
			if !t.Check(err == nil, "build:refused", "the builder refused: %v (inputs %s)", err, kinds) {
				return
			}
			t.Count("transactions built")
			t.Check(bytes.Equal(refTx(stx.Transaction), want), "build:content", "built %x, expected %x", refTx(stx.Transaction), want)
			if !t.Check(stx.API != nil && stx.Transaction.API != nil, "build:no-api", "no API on the transaction") {
				return
			}
			enc, err := sc.w.API.Encode(stx)
			t.Check(err == nil && bytes.Equal(enc, refSignedTx(stx)), "build:encode", "Encode: %v", err)
			ns := sc.with(stx)
			if s := refSignedTxDecodes(sc.w, stx); s != "" {
				t.Violate("build:syntax", "built an invalid transaction: %s", s)
			} else if _, err := sc.w.API.Decode(enc, new(iotago.SignedTransaction), serix.WithValidation()); err != nil {
				t.Violate("build:syntax", "the built transaction does not decode: %v", err)
			}
			v := refVM(ns)
			t.Check(v["unlock"] == "", "build:unlocks", "the unlocks are wrong: %s (inputs %s)", v["unlock"], kinds)
			if len(v) == 0 {
				verr := vmAccepts(ns)
				t.Check(verr == nil, "build:rejected", "the virtual machine rejects the built transaction: %v", verr)
				t.Count("transactions accepted by the VM")
			}
			seen := map[string]int{}
			for i, u := range stx.Unlocks {
				if s, is := u.(*iotago.SignatureUnlock); is {
					pub := string(s.Signature.(*iotago.Ed25519Signature).PublicKey[:])
					if j, dup := seen[pub]; dup {
						t.Violate("build:signed-twice", "inputs %d and %d are signed by the same key", j, i)
					}
					seen[pub] = i
				}
			}
			first := refSignedTx(stx)
			again, err := b.Build()
			t.Check(err == nil && bytes.Equal(refSignedTx(again), first), "build:again", "building again gives another transaction (%v)", err)
			// block
			called := 0
			blk, err := b.BuildAndSwapToBlockBuilder(func(x *iotago.SignedTransaction) {
				called++
				t.Check(bytes.Equal(refSignedTx(x), first), "swap:func", "the function gets another transaction")
			}).Build()
			if t.Check(err == nil, "swap:refused", "BuildAndSwapToBlockBuilder: %v", err) {
				p, is := blk.Body.(*iotago.BasicBlockBody)
				t.Check(called == 1 && is && bytes.Equal(refPayload(p.Payload), refPayload(stx)), "swap:payload", "the block has another payload")
			}
			t.Sample(map[string]any{"inputs": kinds, "outputs": len(stx.Transaction.Outputs), "context inputs": len(stx.Transaction.TransactionEssence.ContextInputs)})
		})

		c.Run("mana", c.N(14000, 400000), func(t *Case) {
			r := t.R
			g := genVM(r, func(g *vmGen) { g.mvAccountState() }, (*vmGen).mvImplicit, (*vmGen).mvAccountGenesis)
			if g.create < g.commit {
				return
			}
			g.hasCommit = true
			g.allot = map[iotago.AccountID]uint64{}
			if !coin(r, 8) {
				delete(g.caps, 1)
			}
			var sinks, manaOuts []int
			for i, o := range g.outs {
				refSetMana(o, 1)
				if refStoredMana(o) == 1 {
					manaOuts = append(manaOuts, i)
					if ucsAllow(o) {
						sinks = append(sinks, i)
					}
				}
				refSetMana(o, 0)
			}
			if len(sinks) == 0 {
				return
			}
			sc := g.assemble()
			create := uint64(sc.stx.Transaction.CreationSlot)
			targets, problem := builderPlan(sc, keyKnown(g.keys))
			if targets == nil || problem != "" || vmUndecided(sc) != "" {
				return
			}
			target := iotago.SlotIndex(create)
			if coin(r, 10) {
				target = iotago.SlotIndex(pickNear(r, uint64(g.clk.genesisSlot), create+100))
			}
			av := availableMana(sc, target)
			// what the user wants
			allot := allotMap{}
			outs := append(iotago.TxEssenceOutputs{}, sc.stx.Transaction.Outputs...)
			if !av.bad {
				free := new(big.Int).Set(av.unbound)
				if free.BitLen() > 62 {
					return
				}
				for n := r.Intn(3); n > 0; n-- {
					x := uint64(0)
					if free.Sign() > 0 {
						x = uint64(r.Int63n(free.Int64() + 1))
					}
					if coin(r, 15) {
						x += uint64(r.Intn(1000))
					}
					i := sinks[r.Intn(len(sinks))]
					refSetMana(outs[i], refStoredMana(outs[i])+x)
					free.Sub(free, bi(x))
				}
				// bound mana which is kept by its account, or allotted
				var ids []iotago.AccountID
				for id := range av.bound {
					ids = append(ids, id)
				}
				sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
				for _, id := range ids {
					m := av.bound[id].Uint64()
					if m == 0 || !coin(r, 2) {
						continue
					}
					x := uint64(r.Int63n(int64(m) + 1))
					if coin(r, 10) {
						x = m + uint64(r.Intn(50))
					}
					placed := false
					for _, o := range outs {
						if ao, is := o.(*iotago.AccountOutput); is && ao.AccountID == id && coin(r, 2) {
							ao.Mana += iotago.Mana(x)
							placed = true
						}
					}
					if !placed && x > 0 {
						allot[id] += x
					}
				}
				if coin(r, 4) && free.Sign() > 0 {
					allot[iotago.AccountID(r32(r))] = 1 + uint64(r.Int63n(free.Int64()))
				}
			}
			sc.stx.Transaction.Allotments = allot.list()
			b := fillBuilder(t, sc, targets, signerOf(t, g.keys), true)
			in, err := b.CalculateAvailableManaInputs(target)
			if av.bad {
				t.Check(err != nil, "mana:inputs-accepted", "inputs which are younger than the target slot, or too much mana, are accepted")
				t.Count("inputs younger than the target slot")

				return
			}
			if t.Check(err == nil, "mana:inputs-refused", "CalculateAvailableManaInputs: %v", err) {
				d := av.same(in, true)
				t.Check(d == "", "mana:inputs", "%s", d)
				t.Count("available mana compared")
			}
			rem := remainingMana(sc, outs, allot, create, target)
			got, err := b.CalculateAvailableManaRemaining(target)
			if !t.Check((err == nil) == (rem != nil), "mana:remaining-verdict", "CalculateAvailableManaRemaining: %v, expected enough=%v", err, rem != nil) {
				return
			}
			if rem != nil {
				d := rem.same(got, false)
				t.Check(d == "", "mana:remaining", "%s", d)
			}
			// the operation
			idx := sinks[r.Intn(len(sinks))]
			if coin(r, 15) {
				idx = r.Intn(len(outs) + 1)
			}
			var ids []iotago.AccountID
			for id := range av.bound {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
			issuer := iotago.AccountID(r32(r))
			if len(ids) > 0 && !coin(r, 3) {
				issuer = ids[r.Intn(len(ids))]
			}
			before, _ := b.Clone().Build()
			var beforeB []byte
			if before != nil {
				beforeB = refTx(before.Transaction)
			}
			mode := r.Intn(5)
			fail, sid := "", iotago.AccountID{}
			if mode >= 2 && mode < 4 {
				switch {
				case idx >= len(outs):
					fail = "no such output"
				case func() bool {
					_, d := outs[idx].(*iotago.DelegationOutput)
					_, f := outs[idx].(*iotago.FoundryOutput)
					return d || f
				}():
					fail = "output cannot store mana"
				default:
					sid = lockedTo(sc, outs[idx], create)
				}
			}
			if rem == nil {
				fail = join(fail, "not enough mana")
			}
			allotBound := func(except iotago.AccountID) (toIssuer uint64) {
				for id, m := range rem.bound {
					if id != except || zero32(except) {
						allot[id] += m.Uint64()
						if id == issuer {
							toIssuer = m.Uint64()
						}
					}
				}

				return toIssuer
			}
			store := func() {
				if fail != "" {
					return
				}
				left := remainingMana(sc, outs, allot, create, target)
				if left == nil {
					fail = "not enough mana"

					return
				}
				m := left.unbound.Uint64()
				if b := left.bound[sid]; b != nil && !zero32(sid) {
					m += b.Uint64()
				}
				refSetMana(outs[idx], refStoredMana(outs[idx])+m)
			}
			name := ""
			switch mode {
			case 0:
				name = "allot-all"
				minMana := uint64(0)
				if rem != nil {
					share := rem.unbound.Uint64()
					if bd := rem.bound[issuer]; bd != nil {
						share += bd.Uint64()
					}
					minMana = []uint64{0, share, share + 1, share / 2}[r.Intn(4)]
					if minMana > share {
						fail = "less than the minimum"
					}
					allotBound(iotago.AccountID{})
					allot[issuer] += rem.unbound.Uint64()
				}
				b.AllotAllMana(target, issuer, iotago.Mana(minMana))
			case 1:
				name = "allot-bound"
				var ignore []iotago.AccountID
				skip := map[iotago.AccountID]bool{}
				for _, id := range ids {
					if coin(r, 3) {
						ignore = append(ignore, id)
						skip[id] = true
					}
				}
				seen := allotMap{}
				if rem != nil {
					for id, m := range rem.bound {
						if !skip[id] {
							allot[id] += m.Uint64()
						}
					}
				}
				b.AllotRemainingAccountBoundMana(target, func(id iotago.AccountID, m iotago.Mana) { seen[id] += uint64(m) }, ignore...)
				if rem != nil {
					for id, m := range rem.bound {
						t.Check(skip[id] && seen[id] == 0 || !skip[id] && seen[id] == m.Uint64(), "mana:callback", "callback for %s got %d, expected %s (ignored: %v)", id, seen[id], m, skip[id])
					}
				}
			case 2:
				name = "store"
				if fail == "" {
					allotBound(sid)
				}
				store()
				b.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(target, idx)
			case 3:
				name = "min-and-store"
				rmc := uint64(r.Intn(20))
				if coin(r, 20) {
					rmc = 1 << (40 + r.Intn(24))
				}
				if fail == "" {
					got := allotBound(sid)
					cp := allotMap{issuer: allot[issuer] + 1}
					for id, m := range allot {
						if id != issuer {
							cp[id] = m
						}
					}
					dummy := *sc.stx.Transaction
					de := *dummy.TransactionEssence
					de.Allotments = cp.list()
					dummy.TransactionEssence = &de
					dummy.Outputs = outs
					sig := sc.stx.Unlocks
					if ref, err := b.Clone().Build(); err == nil {
						sig = ref.Unlocks
					}
					w := refSignedTxWork(sc.w.PP.WorkScoreParameters(), &iotago.SignedTransaction{Transaction: &dummy, Unlocks: sig})
					cost := new(big.Int).Mul(w, bi(rmc))
					switch {
					case w.BitLen() > 32 || cost.BitLen() > 64:
						fail = "cost too large"
					case cost.Cmp(bi(got)) > 0:
						need := new(big.Int).Sub(cost, bi(got))
						if new(big.Int).Add(need, bi(allot[issuer])).BitLen() > 63 {
							return // IncreaseAllotment does not check for overflows
						}
						allot[issuer] += need.Uint64()
					}
					t.Count("minimum required mana compared")
				}
				store()
				b.AllotMinRequiredManaAndStoreRemainingManaInOutput(target, iotago.Mana(rmc), issuer, idx)
				if fail == "" {
					// the block which contains the transaction can be paid for
					if stx, err := b.Clone().Build(); err == nil {
						blk, err := builder.NewBasicBlockBuilder(sc.w.API).Payload(stx).Build()
						if err == nil {
							cost, err := blk.ManaCost(iotago.Mana(rmc))
							if t.Check(err == nil, "mana:block-cost", "ManaCost: %v", err) {
								t.Check(stx.Transaction.Allotments.Get(issuer) >= cost || !zero32(sid) && sid == issuer, "mana:not-enough-for-the-block", "allotted %d to the issuer, the block costs %d", stx.Transaction.Allotments.Get(issuer), cost)
							}
						}
					}
				}
			case 4:
				name = "min-required"
				rmc := uint64(r.Intn(100))
				m, err := b.MinRequiredAllottedMana(iotago.Mana(rmc), issuer)
				if t.Check(err == nil, "mana:min-required", "MinRequiredAllottedMana: %v", err) {
					tx := *before.Transaction
					e := *tx.TransactionEssence
					e.Allotments = allotMap{issuer: 1}.list()
					for id, m := range allot {
						if id != issuer {
							e.Allotments = append(e.Allotments, &iotago.Allotment{AccountID: id, Mana: iotago.Mana(m)})
						}
					}
					tx.TransactionEssence = &e
					w := refSignedTxWork(sc.w.PP.WorkScoreParameters(), &iotago.SignedTransaction{Transaction: &tx, Unlocks: before.Unlocks})
					w.Mul(w, bi(rmc))
					t.Check(w.Cmp(bi(uint64(m))) == 0, "mana:min-required", "MinRequiredAllottedMana is %d, expected %s", m, w)
				}
				fail = ""
			}
			stx, err := b.Build()
			t.Eval(fmt.Sprintf("mana/%s/%v/%d/%d/%v", name, fail == "", len(sc.ins), len(av.bound), zero32(sid)))
			if fail != "" {
				t.Count("mana operations which must fail")
				t.Check(err != nil, "mana:accepted:"+name, "the builder built although: %s", fail)

				return
			}
			if !t.Check(err == nil, "mana:refused:"+name, "the builder refused: %v", err) {
				return
			}
			t.Count("mana operations: " + name)
			want := *sc.stx.Transaction
			e := *want.TransactionEssence
			e.Allotments = allot.list()
			want.TransactionEssence = &e
			want.Outputs = outs
			if mode == 4 {
				t.Check(bytes.Equal(refTx(stx.Transaction), beforeB), "mana:min-required-changes", "MinRequiredAllottedMana changed the transaction")
			}
			if !t.Check(bytes.Equal(refTx(stx.Transaction), refTx(&want)), "mana:result:"+name, "allotments %s, expected %s; output mana %v, expected %v", dump(stx.Transaction.Allotments), dump(e.Allotments), manas(stx.Transaction.Outputs), manas(outs)) {
				return
			}
			if mode == 1 || mode == 4 || target != iotago.SlotIndex(create) {
				return
			}
			ns := sc.with(stx)
			if vmUndecided(ns) != "" {
				return
			}
			v := refVM(ns)
			if v["mana"] != "" {
				t.Violate("mana:not-balanced:"+name, "the built transaction breaks the mana rules: %s", v["mana"])
			}
			if len(v) == 0 {
				verr := vmAccepts(ns)
				t.Check(verr == nil, "mana:rejected:"+name, "the virtual machine rejects the built transaction: %v", verr)
				t.Count("balanced transactions accepted by the VM")
			}
		})

		c.Run("clone", c.N(3000, 60000), func(t *Case) {
			r := t.R
			g := genVM(r)
			sc := g.assemble()
			if coin(r, 3) {
				sc.stx.Transaction.TransactionEssence.Payload = genTaggedData(r)
			}
			targets, problem := builderPlan(sc, keyKnown(g.keys))
			if targets == nil || problem != "" || vmUndecided(sc) != "" {
				return
			}
			b := fillBuilder(t, sc, targets, signerOf(t, g.keys), true)
			first := b.Clone()
			want := refTx(sc.stx.Transaction)
			kept, changed := first, b
			if coin(r, 2) {
				kept, changed = b, first
			}
			id := genOutputID(r)
			name := ""
			for n := 1 + r.Intn(3); n > 0; n-- {
				switch r.Intn(8) {
				case 0:
					changed.AddOutput(genOutput(r))
					name += "output "
				case 1:
					for _, a := range sc.stx.Transaction.Allotments {
						changed.IncreaseAllotment(a.AccountID, 1+iotago.Mana(r.Intn(9)))
					}
					changed.IncreaseAllotment(iotago.AccountID(r32(r)), 5)
					name += "allotment "
				case 2:
					changed.WithTransactionCapabilities(iotago.TransactionCapabilitiesBitMask{byte(1 + r.Intn(63))})
					name += "caps "
				case 3:
					changed.AddTaggedDataPayload(genTaggedData(r))
					name += "payload "
				case 4:
					changed.AddRewardInput(&iotago.RewardInput{Index: uint16(r.Intn(128))}, 77)
					name += "reward "
				case 5:
					changed.SetCreationSlot(iotago.SlotIndex(ru32(r)))
					name += "slot "
				case 6:
					changed.AddInput(&builder.TxInput{UnlockTarget: g.keys[0].ed(), InputID: id, Input: sc.ins[0]})
					name += "input "
				case 7:
					changed.AllotAllMana(sc.stx.Transaction.CreationSlot+1000, iotago.AccountID(r32(r)), 0)
					name += "allot-all "
				}
			}
			_, _ = changed.Build()
			stx, err := kept.Build()
			t.Eval("clone/" + name)
			t.Count("clones compared")
			if t.Check(err == nil, "clone:refused", "after %s on the other builder: %v", name, err) {
				t.Check(bytes.Equal(refTx(stx.Transaction), want), "clone:shared", "%son one builder changed the transaction of the other", name)
				v := refVM(sc.with(stx))
				t.Check(v["unlock"] == "", "clone:unlocks", "the unlocks are wrong: %s", v["unlock"])
			}
			in, err := kept.CalculateAvailableManaInputs(sc.stx.Transaction.CreationSlot)
			av := availableMana(sc, sc.stx.Transaction.CreationSlot)
			if !av.bad && t.Check(err == nil, "clone:mana", "%v", err) {
				d := av.same(in, true)
				t.Check(d == "", "clone:mana", "%s on one builder changed the mana of the other: %s", name, d)
			}
		})

		c.Run("errors", 40, func(t *Case) {
			r := t.R
			w := pickWorld(r)
			b := builder.NewTransactionBuilder(w.API, nil)
			_, err := b.Build()
			t.Check(err != nil, "build:no-signer", "a builder without a signer builds")
			t.Eval("no-signer")
			b = builder.NewTransactionBuilder(w.API, signerOf(t, keyPool[:2]))
			id := genOutputID(r)
			o := &iotago.BasicOutput{Amount: 1000, UnlockConditions: iotago.BasicOutputUnlockConditions{&iotago.AddressUnlockCondition{Address: keyPool[0].ed()}}}
			b.AddInput(&builder.TxInput{UnlockTarget: keyPool[0].ed(), InputID: id, Input: o})
			_, err = b.StoreRemainingManaInOutputAndAllotRemainingAccountBoundMana(id.CreationSlot(), r.Intn(3)).AddOutput(o).Build()
			t.Check(err != nil, "build:error-lost", "an error of an earlier step is lost")
			_, err = b.Clone().Build()
			t.Check(err != nil, "build:error-lost", "a copy of a builder lost the error of an earlier step")
			_, err = b.SetCreationSlot(id.CreationSlot()).WithTransactionCapabilities(nil).Build()
			t.Check(err != nil, "build:error-lost", "an error of an earlier step is lost")
			_, err = b.BuildAndSwapToBlockBuilder(func(*iotago.SignedTransaction) {
				t.Violate("swap:called", "the function is called although building failed")
			}).Build()
			t.Check(err != nil, "swap:error-lost", "the block builder lost the error of the transaction builder")
			t.Eval("sticky-error")
		})
	})
}

func manas(outs iotago.TxEssenceOutputs) (l []uint64) {
	for _, o := range outs {
		l = append(l, refStoredMana(o))
	}

	return l
}
