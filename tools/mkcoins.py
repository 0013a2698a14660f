#!/usr/bin/env python3
"""Writes spec/Coins.tla from the table in /repo/docs/cryptocurrencies.rst.
Run once; the result is committed: it is the documented table, which must not
follow the code when the code changes."""
import re, sys, json
doc = open('/repo/docs/cryptocurrencies.rst').read()
body = doc[doc.index('<tbody>'):doc.index('</tbody>')]
rows, coin = [], None
for tr in body.split("<tr")[1:]:
    tds = [re.sub(r'<[^>]+>', '', x.split('</td>')[0][x.index('>') + 1:]).strip() for x in tr.split('<td')[1:]]
    if len(tds) == 4:
        coin = tds[0]; tds = tds[1:]
    net, wif, addr = tds
    oc = lambda h: list(bytes.fromhex(h[2:] if len(h) % 2 == 0 else '0' + h[2:]))
    rows.append((coin, net, oc(wif), oc(addr)))
t = lambda o: '<<' + ', '.join(map(str, o)) + '>>'
coins = {}
for c, n, w, a in rows:
    coins.setdefault(c, []).append('("%s" :> [wif |-> %s, addr |-> %s])' % (n, t(w), t(a)))
out = ['-------------------------------- MODULE Coins --------------------------------',
 '(* The documented coins and networks (docs/cryptocurrencies.rst, written by    *)',
 '(* tools/mkcoins.py at the pinned commit): WIF prefix and address prefix.           *)',
 '(* Ripple is the one coin that declares an alphabet other than Bitcoin\'s.           *)',
 'EXTENDS Naturals, Sequences, Octets, Base58', 'LOCAL INSTANCE TLC',
 'LOCAL Btc(n) == [nets |-> n, alpha |-> BitcoinAlphabet]',
 'LOCAL Xrp(n) == [nets |-> n, alpha |-> RippleAlphabet]', 'DocCoins ==']
out += ['  %s ("%s" :> %s(%s))' % ('@@' if i else '  ', c, 'Xrp' if c == 'Ripple' else 'Btc', ' @@ '.join(v)) for i, (c, v) in enumerate(coins.items())]
user = json.load(open('/verif/harness/usercoins.json'))
out += ['(* Coins a user may define for himself; the driver makes classes of them, whose   *)', '(* names may be those of other coins.                                              *)', 'UserCoins ==']
out += ['  %s ("%s" :> Btc(%s))' % ('@@' if i else '  ', c, ' @@ '.join('("%s" :> [wif |-> %s, addr |-> %s])' % (n, t(w), t(a)) for n, (w, a) in d["nets"].items())) for i, (c, d) in enumerate(user.items())]
out += ['RealCoins == DocCoins @@ UserCoins']
out += ['=============================================================================']
open('/verif/spec/Coins.tla', 'w').write('\n'.join(out) + '\n')
print(len(rows), len(coins))
json.dump([[c, n, w, a] for c, n, w, a in rows], open('/verif/harness/coins.json', 'w'))
