from rules import roundtrip
rule = roundtrip.rule; explanation = roundtrip.explanation; assumptions = roundtrip.assumptions
floor = 34
NEED = 'u8 bool u16 u32 usize i16 i32 i64 u64 String Hash256 SiacoinOutputID AttestationID SiafundOutputID BlockID TransactionID FileContractID Block Address SiacoinOutput SiafundOutput Leaf Currency Specifier Work UnlockKey UnlockConditions SiacoinInput SiafundInput FileContract FileContractRevision StorageProof CoveredFields TransactionSignature Transaction'.split()
def obligations(P, tier): return roundtrip.obligations(P, 'v1', NEED)
