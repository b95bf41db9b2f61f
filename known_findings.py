#!/usr/bin/env python3
"""Writes known_findings.json (kept as a script so that the entries stay readable). Not run by any check."""
import json, os
K = []
def known(prop, sig, what): K.append(dict(property=prop, signature=sig, status="known", what=what))
def fixed(prop, commit, what): K.append(dict(property=prop, signature="", status="fixed", commit=commit, what=what))
J = "the JSON decoder of the hive.go dependency (serix map_decode.go) "
known("P01", "header-time-above-max-int64", "a block header with an issuing time >= 2^63 ns is accepted and clamped by hive.go's time reader, so it re-encodes to other bytes (hive.go dependency)")
known("P02", "json-shape:type-is-string", J+"panics if the type member of an object is a string instead of a number")
known("P02", "json-shape:slice-is-number", J+"panics if a list is a number")
known("P02", "json-shape:bytes-are-number", J+"panics if a byte string is a number")
known("P02", "json-shape:array-is-number", J+"panics if a fixed size byte string is a number")
known("P02", "json-shape:member-missing", J+"accepts objects with missing members (it returns a nil error) and leaves the rest of the object empty")
known("P02", "alloc:tagged-data-length", "decoding a tagged data payload allocates the declared length (up to 4 GiB) before it is compared with the maximum and the available bytes (hive.go serializer ReadVariableByteSlice)")
N = "decoding of nested %s takes memory out of proportion to the input, 20 to 100 MB for 1000 bytes and gigabytes for 32 KB: serix (hive.go dependency) recurses before any validator of iota.go can reject the inner one and wraps the error once per level"
known("P02", "alloc:nested-restricted", N % "restricted addresses")
known("P02", "alloc:nested-multi", N % "multi addresses")
known("P02", "alloc:nested-unlock", N % "multi unlocks")
known("P02", "alloc:nested-unlock-json", N % "multi unlocks in JSON")
known("P08", "slots-before-next-epoch:genesis-slot-added", "TimeProvider.SlotsBeforeNextEpoch returns the genesis slot too many for every slot if the genesis slot is not 0 (timeprovider.go); the existing tests pin these values, so it is not repaired (the mana calculation, which used it, is)")
known("P08", "slots-since-epoch-start:genesis-slot-added", "TimeProvider.SlotsSinceEpochStart returns the genesis slot too many for every slot if the genesis slot is not 0 (timeprovider.go); the existing tests pin these values, so it is not repaired")
known("P27", "keys:refused:entropy-with-leading-zero", "NewKeyManagerFromMnemonic refuses valid mnemonics whose entropy starts with a zero byte with 'invalid checksum' (bip39 of the iota-crypto-demo dependency pads decoded entropy at the wrong end)")
F = """
P05|e61a6d0|a truncated Ed25519 signature panicked in Ed25519Signature.Decode
P14|07344c6|blocks whose transaction commits to the genesis slot were rejected by the min committable age check
P14|6dd1a63|slot arithmetic overflowed in the committable age checks of blocks
P06|95fb779|block validation appended into the backing array of the caller's strong parents
P06|971faf1|MultiAddress.Clone panicked with index out of range
P06|e9191b4|BlockIssuerFeature.Clone shared the block issuer keys with the original
P06|f3bdb69|DelegationOutput.Clone shared the validator address with the original
P22|0c6e418|data race in EpochBasedProvider.ProtocolEpochVersions
P32|f242f35|data race in V3ProtocolParameters.Bytes
P03|ea76c82|TransactionEssence.Size did not include the length prefix of the payload
P21|53328ee|the VM panicked on foundry creation during an implicit account transition
P09|c9b77d5|Mana generation across epochs counted the genesis slot twice
P02|75b92bb|UnmarshalText of identifiers panicked on texts which are too long
P07|47f6c20|hex strings with extra bytes were accepted as identifiers
P02|4dbc563|FromBytes of identifiers returned the length of the input as consumed bytes
P02|5f5ade3|bech32.Decode panicked on or accepted non US-ASCII characters
P02|e822edb|hex encoded output IDs of a wrong length panicked or were accepted
P02|1bba2b8|BlockIssuerKeyFromBytes always failed
P07|b31209f|ParseBech32 accepted invalid addresses and dropped trailing bytes
P26|8ce390f|new features of BlockIssuerTransition and StakingTransition were never set on the account
P28|46a40ba|Mine returned ErrCanceled for invalid target trailing zeros
P24|ee3df7a|ComputeProofForIndex returned the proof of another value for negative indexes
P05|ae27b6c|an attestation with the all-zero public key verified signatures which anyone can make, while its block was refused
P05|c06a6d6|InMemoryAddressSigner did not find the keys of restricted addresses
P29|cd81e16|HTTP error responses without a JSON body lost their status code error
P29|0f2e05a|the indexer client panicked on malformed output IDs in the response
P29|024f482|the indexer client panicked if the node returned an output of another type
P02|d43c55f|Transaction.String and SignedTransaction.String always panicked
P02|609439d|ParseImplicitAccountCreationAddressFromHexString accepted extra bytes
P02|19784be|TransactionCapabilitiesBitMaskFromBytes always failed
P15|42dd4ec|an input with a storage deposit return was not recognised as unlocked by its return address if the key had signed for an implicit account address and the address was referenced before
P12|98d23e0|MaxBlockWork was exceeded by valid blocks with many foundry outputs holding native tokens
P22|e5c1615|EpochBasedProvider kept answering with the API of protocol parameters which were replaced
P32|eae76e7|the sanity checks of new protocol parameters were computed with 32 bits: parameters with a scheduler rate of more than 2^32 work per slot, or a committable age of more than 2^32 seconds, were refused without contradiction
P09|7e357a5|decayed and generated mana beyond 64 bits, and generation over slots and rates whose product exceeds 32 bits, wrapped around silently instead of reporting an overflow
P32|2552497|data race between the encoder and the lazily computed hash, bytes and network ID of V3ProtocolParameters
P25|c57ff13|TransactionBuilder did not resolve the IDs of newly created chains on the input side: inputs they own could not be unlocked, and their mana was bound and allotted to the empty account ID
P25|8984405|TransactionBuilder treated the mana of implicit accounts as unbound
P26|7438701|AnchorOutputBuilder increased the state index with every call of Build
P27|a1a317b|the mnemonic of a KeyManager made from a mnemonic was refused, and that of one made from random entropy restored other keys
P31|06d80aa|DetermineTransactionFailureReason panicked on errors of types which can not be compared, such as lists of errors
P31|ec02211|DetermineTransactionFailureReason did not recognise an error which is not wrapped, as ValidateUnlocks returns it
P33|d3561c9|BlockState.String and TransactionState.String panicked on out-of-range states which the binary form decodes to
P29|9137f50|Client.Info (and with it New) panicked when the node's answer had no status
P29|1e748f4|SendPayloadWithTransactionBuilder panicked when the node's issuance answer had no commitment
P30|f1aa97e|a subscription which the MQTT broker refuses (SUBACK 0x80) was reported as successful
P02|1ce7369|AddressFromReader, RestrictedAddressFromReader and MultiAddressFromReader recursed without a limit: a few megabytes of nested address types overflowed the stack and ended the process
""".strip().splitlines()
for l in F:
    fixed(*l.split("|"))
json.dump(K, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json"), "w"), indent=1)
