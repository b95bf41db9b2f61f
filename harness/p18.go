package main

import (
	"fmt"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm/nova"
)

// unlockedSet checks which addresses the virtual machine takes for unlocked, and by which inputs.
func unlockedSet(t *Case, sc *vmScene, desc string) {
	got, err := nova.NewVirtualMachine().ValidateUnlocks(sc.stx, sc.resolved())
	if !t.Check(err == nil, "unlocked-set", "unlocks are rejected when they are validated again: %v", err) {
		return
	}
	st := sc.unlocks
	seen := map[string]bool{}
	for key, a := range got {
		k := akey(a.Address)
		seen[k] = true
		_, has := st.at[k]
		t.Check(has, "unlocked-set:extra", "address %x counts as unlocked, but nothing unlocks it\nchange: %s\n%s", k, desc, sc.describe())
		t.Check(a.Address.Key() == key, "unlocked-set:key", "address %s is filed under %x", a.Address, key)
		for i := range sc.ins {
			want := st.unlocker[i] == k || st.at[k] == i
			if u := st.unlocker[i]; u != k && u[1:] == k[1:] {
				// by reference to the signature for another address of the same key: both may be named
				continue
			}
			t.Check(got.UnlockedBy(uint16(i), key) == want, "unlocked-by", "UnlockedBy(%d, %x) is %v\nchange: %s\n%s", i, key, !want, desc, sc.describe())
		}
	}
	for k := range st.at {
		t.Check(seen[k], "unlocked-set:missing", "address %x is unlocked at input %d, but does not count as unlocked\nchange: %s\n%s", k, st.at[k], desc, sc.describe())
	}
	t.Add("unlocked addresses", int64(len(got)))
}

// unlockableBy checks the functions by which wallets find out who can unlock an output.
func unlockableBy(c *Ctx) {
	c.Run("unlockable-by", c.N(60000, 2000000), func(t *Case) {
		r := t.R
		w := pickWorld(r)
		o := genOutput(r)
		tokens, mana := uint64(w.PP.TokenSupply()), uint64(1)<<40
		repairOutput(r, w, o, &tokens, &mana)
		past := uint64(ru32(r))
		future := past - uint64(r.Intn(40))
		if future > past {
			future = 0
		}
		near := func(s uint64) iotago.SlotIndex { return iotago.SlotIndex(pickNear(r, satSub(s, 2), s+2)) }
		if e, has := getUC[*iotago.ExpirationUnlockCondition](o); has {
			e.Slot = near([]uint64{past, future}[r.Intn(2)])
		}
		if e, has := getUC[*iotago.TimelockUnlockCondition](o); has {
			e.Slot = near(future)
		}
		// who owns it
		var owner iotago.Address
		var next iotago.OwnerTransitionDependentOutput
		invalid := false
		a, isAnchor := o.(*iotago.AnchorOutput)
		if isAnchor {
			gov, _ := getUC[*iotago.GovernorAddressUnlockCondition](o)
			sc, _ := getUC[*iotago.StateControllerAddressUnlockCondition](o)
			owner = gov.Address
			if !coin(r, 3) {
				n := a.Clone().(*iotago.AnchorOutput)
				d := uint32(r.Intn(4)) - 1
				n.StateIndex += d
				next = n
				switch {
				case d == 0:
				case n.StateIndex == a.StateIndex+1:
					owner = sc.Address
				default:
					invalid = true
				}
			}
		} else {
			owner = addrUC(o)
		}
		exp, hasExp := getUC[*iotago.ExpirationUnlockCondition](o)
		tl, hasTL := getUC[*iotago.TimelockUnlockCondition](o)
		var who iotago.Address
		switch {
		case hasTL && uint64(tl.Slot) > future:
		case hasExp && uint64(exp.Slot) <= future:
			who = exp.ReturnAddress
		case hasExp && uint64(exp.Slot) <= past:
		default:
			who = owner
		}
		cands := []iotago.Address{owner, owner.Clone(), genAnyAddr(r)}
		if hasExp {
			cands = append(cands, exp.ReturnAddress.Clone())
		}
		if sc, has := getUC[*iotago.StateControllerAddressUnlockCondition](o); has {
			cands = append(cands, sc.Address)
		}
		target := cands[r.Intn(len(cands))]
		_, restrictedTarget := target.(*iotago.RestrictedAddress)
		if who != nil && akey(underlying(who)) == akey(underlying(target)) && akey(who) != akey(target) {
			// the restrictions say what may be sent to an address, not who owns it: left open
			return
		}
		want := who != nil && akey(who) == akey(target)
		var got bool
		var err error
		if isAnchor {
			got, err = a.UnlockableBy(target, next, iotago.SlotIndex(past), iotago.SlotIndex(future))
		} else {
			got = o.(iotago.OwnerTransitionIndependentOutput).UnlockableBy(target, iotago.SlotIndex(past), iotago.SlotIndex(future))
		}
		t.Eval(join("unlockable", o.Type().String(), fmt.Sprint(hasExp, hasTL, want, invalid, restrictedTarget, target.Type())))
		if invalid {
			t.Check(err != nil && !got, "unlockable-by-invalid-next", "an anchor whose next state has index %d after %d is unlockable by %s", next.(*iotago.AnchorOutput).StateIndex, a.StateIndex, target)

			return
		}
		t.Count(fmt.Sprintf("unlockable %v", want))
		t.Check(err == nil && got == want, "unlockable-by", "UnlockableBy(%s, past %d, future %d) is %v (%v), want %v, for %s", target, past, future, got, err, want, dump(o))
	})
}

func satSub(a, b uint64) uint64 {
	if a < b {
		return 0
	}

	return a - b
}
