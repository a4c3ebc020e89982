from rules.preimages import *
import serde_model as J, teval
rule = 'writing a value gives the document of the schema, and reading that document (members in any order) gives the value back'
explanation = 'The serializer of every exported type is summarised over an abstract JSON data model (objects as named members with presence conditions) and the summary is compared with the schema: member names, member values, presence, representation of timestamps, durations, base64 data, identifiers, policies, resolutions and accumulators. The deserializer is then summarised on that symbolic document, with the members met in ascending and in descending order, and its result must be the original value.'
assumptions = ['serde and serde_json implement the serde data model; time formats and parses RFC 3339, base64 encodes and decodes as specified',
               'the document of an exported type nested in another one is decided by the obligations of that type']
floor = 95

# schema: member of the Rust type -> (JSON name, representation); '?' marks members left out when empty
T1 = {
 S.CO + 'HardforkDevAddr': 'height=height old_address=oldAddress new_address=newAddress',
 S.CO + 'HardforkTax': 'height=height',
 S.CO + 'HardforkStorageProof': 'height=height',
 S.CO + 'HardforkOak': 'height=height fix_height=fixHeight genesis_timestamp=genesisTimestamp:time',
 S.CO + 'HardforkASIC': 'height=height oak_time=oakTime:ns oak_target=oakTarget',
 S.CO + 'HardforkFoundation': 'height=height primary_address=primaryAddress failsafe_address=failsafeAddress',
 S.CO + 'HardforkV2': 'allow_height=allowHeight require_height=requireHeight',
 S.CO + 'Network': 'name=name initial_coinbase=initialCoinbase minimum_coinbase=minimumCoinbase initial_target=initialTarget block_interval=blockInterval:ns maturity_delay=maturityDelay hardfork_dev_addr=hardforkDevAddr hardfork_tax=hardforkTax hardfork_storage_proof=hardforkStorageProof hardfork_oak=hardforkOak hardfork_asic=hardforkASIC hardfork_foundation=hardforkFoundation hardfork_v2=hardforkV2',
 S.CO + 'State': 'index=index prev_timestamps=prevTimestamps:times depth=depth child_target=childTarget siafund_pool=siafundPool oak_time=oakTime:ns oak_target=oakTarget foundation_primary_address=foundationPrimaryAddress foundation_failsafe_address=foundationFailsafeAddress total_work=totalWork difficulty=difficulty oak_work=oakWork elements=elements attestations=attestations',
 S.CO + 'ChainState': 'network=network state=state',
 S.C + 'ChainIndex': 'height=height id=id',
 S.C + 'Block': 'parent_id=parentID nonce=nonce timestamp=timestamp:time miner_payouts=minerPayouts transactions=transactions',
 S.C + 'SiacoinOutput': 'value=value address=address',
 S.C + 'SiafundOutput': 'value=value address=address',
 S.C + 'StateElement': 'leaf_index=leafIndex merkle_proof=merkleProof',
 S.SATP: 'policy=policy signatures=signatures? preimages=preimages?',
 S.V1 + 'UnlockConditions': 'timelock=timelock public_keys=publicKeys signatures_required=signaturesRequired',
 S.V1 + 'SiacoinInput': 'parent_id=parentID unlock_conditions=unlockConditions',
 S.V1 + 'SiafundInput': 'parent_id=parentID unlock_conditions=unlockConditions claim_address=claimAddress',
 S.V1 + 'FileContract': 'file_size=filesize file_merkle_root=fileMerkleRoot window_start=windowStart window_end=windowEnd payout=payout valid_proof_outputs=validProofOutputs missed_proof_outputs=missedProofOutputs unlock_hash=unlockHash revision_number=revisionNumber',
 S.V1 + 'FileContractRevision': 'parent_id=parentID unlock_conditions=unlockConditions revision_number=revisionNumber file_size=filesize file_merkle_root=fileMerkleRoot window_start=windowStart window_end=windowEnd valid_proof_outputs=validProofOutputs missed_proof_outputs=missedProofOutputs unlock_hash=unlockHash',
 S.V1 + 'StorageProof': 'parent_id=parentID leaf=leaf proof=proof',
 S.V1 + 'CoveredFields': 'whole_transaction=wholeTransaction siacoin_inputs=siacoinInputs? siacoin_outputs=siacoinOutputs? file_contracts=fileContracts? file_contract_revisions=fileContractRevisions? storage_proofs=storageProofs? siafund_inputs=siafundInputs? siafund_outputs=siafundOutputs? miner_fees=minerFees? arbitrary_data=arbitraryData? signatures=signatures?',
 S.V1 + 'TransactionSignature': 'parent_id=parentID public_key_index=publicKeyIndex timelock=timelock covered_fields=coveredFields signature=signature:b64',
 S.V1 + 'Transaction': 'siacoin_inputs=siacoinInputs? siacoin_outputs=siacoinOutputs? file_contracts=fileContracts? file_contract_revisions=fileContractRevisions? storage_proofs=storageProofs? siafund_inputs=siafundInputs? siafund_outputs=siafundOutputs? miner_fees=minerFees? arbitrary_data=arbitraryData?:b64s signatures=signatures?',
 S.V2 + 'Attestation': 'public_key=publicKey key=key value=value:b64 signature=signature',
 S.V2 + 'FileContract': 'capacity=capacity filesize=filesize file_merkle_root=fileMerkleRoot proof_height=proofHeight expiration_height=expirationHeight renter_output=renterOutput host_output=hostOutput missed_host_value=missedHostValue total_collateral=totalCollateral renter_public_key=renterPublicKey host_public_key=hostPublicKey revision_number=revisionNumber renter_signature=renterSignature host_signature=hostSignature',
 S.V2 + 'SiacoinElement': 'state_element=stateElement id=id siacoin_output=siacoinOutput maturity_height=maturityHeight',
 S.V2 + 'SiafundElement': 'state_element=stateElement id=id siafund_output=siafundOutput claim_start=claimStart',
 S.V2 + 'FileContractElement': 'state_element=stateElement id=id v2_file_contract=v2FileContract',
 S.V2 + 'ChainIndexElement': 'state_element=stateElement id=id chain_index=chainIndex',
 S.V2 + 'SiacoinInput': 'parent=parent satisfied_policy=satisfiedPolicy',
 S.V2 + 'SiafundInput': 'parent=parent claim_address=claimAddress satisfied_policy=satisfiedPolicy',
 S.V2 + 'FileContractRevision': 'parent=parent revision=revision',
 S.V2 + 'FileContractRenewal': 'final_revision=finalRevision new_contract=newContract renter_rollover=renterRollover host_rollover=hostRollover renter_signature=renterSignature host_signature=hostSignature',
 S.V2 + 'StorageProof': 'proof_index=proofIndex leaf=leaf proof=proof',
 S.V2 + 'Transaction': 'siacoin_inputs=siacoinInputs? siacoin_outputs=siacoinOutputs? siafund_inputs=siafundInputs? siafund_outputs=siafundOutputs? file_contracts=fileContracts? file_contract_revisions=fileContractRevisions? file_contract_resolutions=fileContractResolutions? attestations=attestations? arbitrary_data=arbitraryData?:b64 new_foundation_address=newFoundationAddress? miner_fee=minerFee',
}
IDS = [S.C + n for n in ('Hash256', 'SiacoinOutputID', 'AttestationID', 'SiafundOutputID', 'BlockID', 'TransactionID', 'FileContractID')]

class Ctx: pass
def std(I, ty, v, hr=TRUE):
    """document of a value of a standard or exported type"""
    c = Ctx(); c.I = I
    return J.do_ser(c, St(TRUE, {}), ty, v, hr)
def time_(v): return ITE(M.bcall('rfc3339able', v), OK(J.jstr(as_seq(mk('call', 'rfc3339', v, J.STR)))), J.err())
def ns(v):
    n = M.wns(v)
    return ITE(AND(GE(n, INT(0)), LT(n, INT(2 ** 63))), OK(J.jnum(n)), J.err())
def b64(v): return OK(J.jstr(as_seq(mk('call', 'b64', as_seq(v), J.STR))))
def hexs(v, pre=''): return OK(J.jstr(CONCAT(J.text(pre), as_seq(mk('hex', as_seq(v))))))

def struct_doc(I, ty, v, row):
    es = []; ok = TRUE
    for w in row.split():
        rn, _, rest = w.partition('=')
        name, _, how = rest.partition(':')
        opt = name.endswith('?'); name = name.rstrip('?')
        x, t = S.F(v, ty, rn)
        t = M.strip(t)
        if how == 'time': r = time_(x)
        elif how == 'times': r = J.all_ok([time_(index(x, INT(i), S.A(S.ODT))) for i in range(11)], lambda ds: J.jarr(as_seq(SEQ(*[ONE(d) for d in ds]))))
        elif how == 'ns': r = ns(x)
        elif how == 'b64': r = b64(x)
        elif how == 'b64s': r = J.map_seq(x, M.strip(t[2][0]), b64, lambda q: J.jarr(q))
        else: r = std(I, t, x)
        here = TRUE
        if opt:
            here = M.issome(x) if t[0] == 'adt' and t[1] == OPT else NOT(EQ0(LEN(x)))
            if t[0] == 'adt' and t[1] == OPT: r = std(I, t[2][0], M.somev(x, M.strip(t[2][0])))
        ok = AND(ok, OR(NOT(here), M.isok(r)))
        es.append((J.text(name), ITE(here, SOME(M.okv(r, J.VT)), NONE)))
    d = J.jobj(es)
    return OK(d) if ok is TRUE else ITE(ok, OK(d), J.err())

def arr(n): return ('array', ('int', 'u8'), (('cval', str(n)),))
def raw(v, n): return as_seq(FLD(v, 0, 0, arr(n)))
def policy_doc(I, ty, v):
    names = ['above', 'after', 'pk', 'h', 'thresh', 'opaque', 'uc']
    order = ['Above', 'After', 'PublicKey', 'Hash', 'Threshold', 'Opaque', 'UnlockConditions']
    r = None
    for n, vn in list(zip(names, order))[::-1]:
        vi = S.vidx(ty[1], vn)
        f = lambda i, t: FLD(v, vi, i, t)
        if n == 'above': d = OK(J.jnum(f(0, ('int', 'u64'))))
        elif n == 'after': d = OK(J.jnum(CAST('u64', mk('call', 'unix', f(0, S.A(S.ODT)), ('int', 'i64')))))
        elif n == 'pk': d = std(I, S.A(S.PUBK), f(0, S.A(S.PUBK)))
        elif n == 'h': d = std(I, S.A(HASH), f(0, S.A(HASH)))
        elif n == 'thresh':
            d = J.all_ok([OK(J.jnum(f(0, ('int', 'u8')))), std(I, ('adt', 'alloc::vec::Vec', (ty,)), f(1, ('adt', 'alloc::vec::Vec', (ty,))))], lambda xs: J.jobj([(J.text('n'), SOME(xs[0])), (J.text('of'), SOME(xs[1]))]))
        elif n == 'opaque': d = std(I, S.A(S.C + 'Address'), f(0, S.A(S.C + 'Address')))
        else: d = std(I, S.A(S.V1 + 'UnlockConditions'), f(0, S.A(S.V1 + 'UnlockConditions')))
        q = OK(J.jobj([(J.text('type'), SOME(J.jtext(n))), (J.text('policy'), SOME(M.okv(d, J.VT)))]))
        r = q if r is None else ITE(ISV(v, vi, 7), q, r)
    return r
def few(v, ty):
    """thresholds of at most 255 sub-policies (the binary form has no more)"""
    vi = S.vidx(ty[1], 'Threshold')
    return OR(NOT(ISV(v, vi, 7)), LE(LEN(FLD(v, vi, 1, ('adt', 'alloc::vec::Vec', (ty,)))), INT(255)))
CR = S.V2 + 'ContractResolution'
def by_kind(v, f):
    a = ISV(v, S.vidx(CR, 'Renewal'), 3); b = ISV(v, S.vidx(CR, 'StorageProof'), 3)
    return ITE(a, f('renewal', 'Renewal'), ITE(b, f('storageProof', 'StorageProof'), f('expiration', None)))
def res_doc(I, v, empty):
    def f(n, vn):
        if vn is None: return OK(empty)
        return std(I, S.A(S.V2 + {'Renewal': 'FileContractRenewal'}.get(vn, vn)), FLD(v, S.vidx(CR, vn), 0, None))
    return f
def cr_doc(I, ty, v):
    g = res_doc(I, v, J.jarr(mk('seq')))
    return by_kind(v, lambda n, vn: J.mapok(g(n, vn), lambda d: J.jobj([(J.text(n), SOME(d))])))
def fcr_doc(I, ty, v):
    p, pt = S.F(v, ty, 'parent'); r, _ = S.F(v, ty, 'resolution')
    g = res_doc(I, r, ADT(J.VK, J.OBJV, ADT(J.MK, 0)))
    return by_kind(r, lambda n, vn: J.all_ok([std(I, M.strip(pt), p), g(n, vn)], lambda xs: J.jobj([(J.text('parent'), SOME(xs[0])), (J.text('type'), SOME(J.jtext(n))), (J.text('resolution'), SOME(xs[1]))])))
def bit(n, i): return NOT(EQ0(rem(div(n, INT(2 ** i)) if i else n, INT(2)) if i < 63 else div(n, INT(2 ** 63))))
def acc_doc(I, ty, v):
    n, _ = S.F(v, ty, 'num_leaves'); t, _ = S.F(v, ty, 'trees')
    ps = []
    for i in range(64):
        d = M.okv(std(I, S.A(HASH), index(t, INT(i), S.A(HASH))), J.VT)
        ps.append(ITE(bit(n, i), as_seq(SEQ(ONE(d))), mk('seq')))
    return OK(J.jobj([(J.text('numLeaves'), SOME(J.jnum(n))), (J.text('trees'), SOME(J.jarr(CONCAT(*ps))))]))
def acc_back(v, ty):
    n, _ = S.F(v, ty, 'num_leaves'); t, _ = S.F(v, ty, 'trees')
    z = ADT(HASH, 0, mk('seq', LIT((0,) * 32)))
    return ADT(ty[1], 0, n, as_seq(SEQ(*[ONE(ITE(bit(n, i), index(t, INT(i), S.A(HASH)), z)) for i in range(64)])))
def addr_doc(I, ty, v):
    b = raw(v, 32)
    return hexs(CONCAT(b, slice_(as_seq(M.HB(32, b)), INT(0), INT(6))))
def uk_doc(I, ty, v):
    a, at = S.F(v, ty, 'algorithm'); k, _ = S.F(v, ty, 'key')
    s = FLD(a, 0, 0, arr(16)); s = as_seq(s)
    if is_const_seq(s):
        b = bytes(x for p in s.a for x in p.a[0]).rstrip(b'\0')
        t = J.text(b.decode())
    else:
        n = FIRST(INT(16), lambda i: NOT(EQ0(index(s, sub(INT(15), i), ('int', 'u8')))))
        import strmodel
        t = strmodel.fn('lossy', M.STR, slice_(s, INT(0), sub(INT(16), n)))
    return OK(J.jstr(CONCAT(t, J.text(':'), as_seq(mk('hex', as_seq(k))))))

SPECIAL = {
 S.CO + 'ElementAccumulator': acc_doc, S.SP: policy_doc, CR: cr_doc, S.V2 + 'FileContractResolution': fcr_doc,
 S.PUBK: lambda I, ty, v: hexs(raw(v, 32), 'ed25519:'), S.SIGN: lambda I, ty, v: hexs(raw(v, 64)),
 S.C + 'Leaf': lambda I, ty, v: hexs(raw(v, 64)), S.C + 'Address': addr_doc,
 S.CUR: lambda I, ty, v: OK(J.jstr(M.dec(FLD(v, 0, 0, ('int', 'u128'))))),
 S.WORK: lambda I, ty, v: OK(J.jstr(as_seq(mk('call', 'uint::dec', v, J.STR)))),
 S.SPECF: lambda I, ty, v: J.map_seq(FLD(v, 0, 0, arr(16)), ('int', 'u8'), lambda x: OK(J.jnum(x)), lambda q: J.jarr(q)),
 S.V1 + 'UnlockKey': uk_doc,
}
for k in IDS: SPECIAL[k] = lambda I, ty, v: hexs(raw(v, 32))

def hint_uk(e, r): return None

def setup(P):
    I = fresh(P); nested_hook(I); J.install(I)
    return I
def write(P, se, v, hr):
    I = setup(P); st = St(TRUE, {})
    b = P.bodies[impl_fn(se, 'serialize')]
    r = I.call_key(impl_fn(se, 'serialize'), [v, J.ser(hr)], st, {g: J.ST_ for g in b['generics']})
    return r, I, st
def read(P, de, j, hr, pc, rev=False):
    I = setup(P); st = St(pc, {})
    b = P.bodies[impl_fn(de, 'deserialize')]
    J.REV[0] = rev
    try: r = I.call_key(impl_fn(de, 'deserialize'), [J.des(hr, j)], st, {g: J.DT for g in b['generics'] if not g.startswith("'")})
    finally: J.REV[0] = False
    return r, I, st

def obligations(P, tier):
    fresh(P)
    teval.Ev.DOC = staticmethod(J.documents(P, fresh, nested_hook))
    se, de = {}, {}
    for tab, tr in ((se, J.SERK), (de, J.DESK)):
        for im, ty in impls(P, tr):
            ty = M.strip(ty)
            if ty[0] == 'adt': tab[ty[1]] = im
    out = []
    tries = 400 if tier == 'thorough' else 120
    for tk in list(T1) + list(SPECIAL):
        ty = S.A(tk); short = tk.replace('sia::', '')
        if P.adts.get(tk) is None: out.append(missing('%s exists' % short, 'public type ' + short)); continue
        if tk not in se: out.append(missing('%s is written' % short, 'Serialize for ' + short)); continue
        if tk not in de: out.append(missing('%s is read' % short, 'Deserialize for ' + short)); continue
        want = SPECIAL.get(tk) or (lambda I, ty, v, tk=tk: struct_doc(I, ty, v, T1[tk]))
        wk, rk = impl_fn(se[tk], 'serialize'), impl_fn(de[tk], 'deserialize')
        def wr(tk=tk, ty=ty, want=want):
            v = SYM('v', ty)
            r, I, st = write(P, se[tk], v, TRUE)
            w = want(I, ty, v)
            return both(cmpq.compare(I, S, r, w, tries=tries), cmpq.compare(I, S, st.pc, TRUE))
        out.append(Ob('%s: document' % short, where(P, wk), rule, guard(wr)))
        vals = [('', SYM('v', ty), TRUE)]
        if tk == S.V1 + 'UnlockKey':
            kt = ('adt', 'alloc::vec::Vec', (('int', 'u8'),))
            vals = []
            for a in ('ed25519', 'entropy', '', 'x', '0123456789abcdef', '\u00e9t\u00e9'):
                vals.append((' with algorithm %r' % a, ADT(tk, 0, ADT(S.SPECF, 0, spec16(a)), SYM('key', kt)), TRUE))
        for label, v, hr in vals + ([('', SYM('v', ty), FALSE)] if tk in IDS or tk == S.V1 + 'UnlockKey' else []):
            for rev in ((False, True) if hr is TRUE and (tk in T1 or tk in (S.SP, S.V2 + 'FileContractResolution', S.CO + 'ElementAccumulator')) else (False,)):
                def rt(tk=tk, ty=ty, want=want, v=v, hr=hr, rev=rev):
                    # the schema's own document where there is one, else what the serializer writes
                    I = setup(P)
                    if hr is TRUE: r = want(I, ty, v); pc0 = TRUE
                    else:
                        r, I, st = write(P, se[tk], v, hr); pc0 = st.pc
                    ok = AND(pc0, M.isok(r))
                    if tk == S.SP: ok = AND(ok, few(v, ty))
                    j = constrain(M.okv(r, J.VT), ok)
                    d, I2, st2 = read(P, de[tk], j, hr, ok, rev)
                    back = acc_back(v, ty) if tk == S.CO + 'ElementAccumulator' else v
                    return both(cmpq.compare(I2, S, d, OK(back), ok, tries=tries), cmpq.compare(I2, S, st2.pc, ok, ok, tries=40))
                out.append(Ob('%s: %s back%s%s' % (short, 'read' if hr is TRUE else 'compact form', label, ', members descending' if rev else ''), where(P, rk), rule, guard(rt), limit=200))
    return out
