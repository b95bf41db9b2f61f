package main

import (
	"math/big"
	"time"

	iotago "github.com/iotaledger/iota.go/v4"
)

// refClock is an independent model of slots and epochs, computed with big.Int, from the parameters alone.
type refClock struct {
	genesisSlot uint64
	genesisUnix int64
	dur         int64
	exp         uint
}

func clockOf(pp iotago.ProtocolParameters) refClock {
	return refClock{uint64(pp.GenesisSlot()), pp.GenesisUnixTimestamp(), int64(pp.SlotDurationInSeconds()), uint(pp.SlotsPerEpochExponent())}
}

// epoch: the slots [genesis + e*2^exp, genesis + (e+1)*2^exp) make up epoch e, everything before the genesis belongs to epoch 0.
func (c refClock) epoch(slot uint64) uint64 {
	if slot < c.genesisSlot {
		return 0
	}

	return (slot - c.genesisSlot) / (uint64(1) << c.exp)
}
func (c refClock) start(epoch uint64) uint64 { return c.genesisSlot + epoch*(uint64(1)<<c.exp) }
func (c refClock) end(epoch uint64) uint64   { return c.start(epoch+1) - 1 }
func (c refClock) before(slot uint64) uint64 {
	if slot < c.genesisSlot {
		return 0
	}

	return c.start(c.epoch(slot)+1) - slot
}
func (c refClock) since(slot uint64) uint64 {
	if slot < c.genesisSlot {
		return 0
	}

	return slot - c.start(c.epoch(slot))
}

// slotAt: slot g+1+k covers [genesis + k*dur, genesis + (k+1)*dur), everything before the genesis is the genesis slot.
func (c refClock) slotAt(t time.Time) uint64 {
	ns := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9))
	ns.Add(ns, big.NewInt(int64(t.Nanosecond())))
	ns.Sub(ns, new(big.Int).Mul(big.NewInt(c.genesisUnix), big.NewInt(1e9)))
	if ns.Sign() < 0 {
		return c.genesisSlot
	}
	ns.Div(ns, new(big.Int).Mul(big.NewInt(c.dur), big.NewInt(1e9)))

	return c.genesisSlot + 1 + ns.Uint64()
}

// ---- mana (TIP-45), in exact integer arithmetic ----

type refMana struct {
	clock refClock
	mp    *iotago.ManaParameters
}

func manaOf(pp iotago.ProtocolParameters) refMana { return refMana{clockOf(pp), pp.ManaParameters()} }

func shr(v *big.Int, n int) *big.Int    { return new(big.Int).Rsh(v, uint(n)) }
func mul(v *big.Int, f uint64) *big.Int { return new(big.Int).Mul(v, bi(f)) }

func (m refMana) decay(v *big.Int, epochs uint64) *big.Int {
	n := uint64(len(m.mp.DecayFactors))
	if n == 0 {
		return v
	}
	for epochs > 0 {
		k := min(epochs, n)
		epochs -= k
		v = shr(mul(v, uint64(m.mp.DecayFactors[k-1])), int(m.mp.DecayFactorsExponent))
		if v.Sign() == 0 {
			break
		}
	}

	return v
}

func (m refMana) generate(amount *big.Int, slots uint64) *big.Int {
	return shr(mul(mul(amount, slots), uint64(m.mp.GenerationRate)), int(m.mp.GenerationRateExponent))
}

// generateDecay returns nil if target < created, and the sum of the mana generated in each epoch, decayed by the number of epochs since.
func (m refMana) generateDecay(amount *big.Int, created, target uint64) *big.Int {
	if created > target {
		return nil
	}
	ec, et := m.clock.epoch(created), m.clock.epoch(target)
	switch n := et - ec; n {
	case 0:
		return m.generate(amount, target-created)
	case 1:
		first := m.decay(m.generate(amount, m.clock.before(created)), 1)

		return first.Add(first, m.generate(amount, m.clock.since(target)))
	default:
		first := m.decay(m.generate(amount, m.clock.before(created)), n)
		c := shr(mul(mul(amount, uint64(m.mp.DecayFactorEpochsSum)), uint64(m.mp.GenerationRate)),
			int(m.mp.DecayFactorEpochsSumExponent)+int(m.mp.GenerationRateExponent)-int(m.clock.exp))
		res := new(big.Int).Sub(c, m.decay(c, n-1))
		res.Add(res, first)
		res.Add(res, m.generate(amount, m.clock.since(target)))

		return res.Sub(res, shr(c, int(m.mp.DecayFactorsExponent)))
	}
}

func (m refMana) decaySlots(v *big.Int, created, target uint64) *big.Int {
	ec, et := m.clock.epoch(created), m.clock.epoch(target)
	if ec > et {
		return nil
	}

	return m.decay(v, et-ec)
}

func refPotentialMana(pp iotago.ProtocolParameters, o iotago.Output, created, target iotago.SlotIndex) *big.Int {
	excess := new(big.Int).Sub(bi(uint64(refAmount(o))), refMinDeposit(pp.StorageScoreParameters(), o))
	if excess.Sign() <= 0 {
		if created > target && excess.Sign() == 0 {
			return nil
		}

		return new(big.Int)
	}

	return manaOf(pp).generateDecay(excess, uint64(created), uint64(target))
}
