from rules import roundtrip
rule = roundtrip.rule; explanation = roundtrip.explanation; assumptions = roundtrip.assumptions
floor = 46
NEED = 'u8 bool OffsetDateTime Duration u16 u32 usize i16 i32 i64 u64 String PublicKey Signature Hash256 SiacoinOutputID AttestationID SiafundOutputID BlockID TransactionID FileContractID ChainIndex Address SiacoinOutput SiafundOutput Leaf StateElement Currency Specifier SpendPolicy SatisfiedPolicy Work UnlockKey UnlockConditions Attestation FileContract SiacoinElement SiafundElement FileContractElement ChainIndexElement SiacoinInput SiafundInput FileContractRevision FileContractRenewal StorageProof FileContractResolution Transaction ElementAccumulator State'.split()
def obligations(P, tier): return roundtrip.obligations(P, 'v2', NEED)
