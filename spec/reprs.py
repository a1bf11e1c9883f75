"""Reference models: textual representations."""
from bitcointx.core import bytes_repr, b2x


def commitment_str(self):
    v = str(self._get_explicit()) if self.is_explicit() else 'CONFIDENTIAL'
    return '%s(%s)' % (self.__class__.__name__, v)


def commitment_repr(self):
    v = repr(self._get_explicit()) if self.is_explicit() else bytes_repr(self.commitment)
    return '%s(%s)' % (self.__class__.__name__, v)


def nonce_repr(self):
    return "%s(x('%s'))" % (self.__class__.__name__, b2x(self.commitment))


def asset_repr(self):
    return "%s('%s')" % (self.__class__.__name__, self.to_hex())


def inwit_repr(self, strfn: 'strfn'):
    n = self.__class__.__name__
    if self.is_null():
        return n + '()'
    return '%s(%s, %s, %s, %s)' % (n, strfn(self.scriptWitness),
                                   bytes_repr(self.issuanceAmountRangeproof),
                                   bytes_repr(self.inflationKeysRangeproof),
                                   strfn(self.pegin_witness))


def outwit_repr(self):
    n = self.__class__.__name__
    if self.is_null():
        return n + '()'
    return '%s(%s, %s)' % (n, bytes_repr(self.surjectionproof), bytes_repr(self.rangeproof))


def txwit_repr(self, strfn: 'strfn'):
    return '%s([%s], [%s])' % (self.__class__.__name__,
                               ','.join(strfn(w) for w in self.vtxinwit),
                               ','.join(strfn(w) for w in self.vtxoutwit))


def issuance_repr(self, strfn: 'strfn'):
    r = []
    if self.assetBlindingNonce.to_int():
        r.append(bytes_repr(self.assetBlindingNonce.data))
    if self.assetEntropy.to_int():
        r.append(bytes_repr(self.assetEntropy.data))
    if not self.nAmount.is_null():
        r.append(strfn(self.nAmount))
    if not self.nInflationKeys.is_null():
        r.append(strfn(self.nInflationKeys))
    return 'CAssetIssuance(' + ', '.join(r) + ')'


def txin_repr(self, strfn: 'strfn'):
    return '%s(%s, %s, 0x%x, %s, is_pegin=%r)' % (
        self.__class__.__name__, strfn(self.prevout), repr(self.scriptSig), self.nSequence,
        strfn(self.assetIssuance), self.is_pegin)


def txout_repr(self, strfn: 'strfn'):
    return '%s(%s, %s, %s, %s)' % (self.__class__.__name__, strfn(self.nValue),
                                   repr(self.scriptPubKey), strfn(self.nAsset),
                                   strfn(self.nNonce))


def failure_str(self):
    return '%s("%s")' % (self.__class__.__name__, self.error)


def blech32_repr(self):
    return '%s(%r)' % (self.__class__.__name__, str(self))
