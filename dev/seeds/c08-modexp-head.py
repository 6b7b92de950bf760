PROPERTY="C08"
NEEDS="a modexp input with a base longer than 32 bytes and a modulus exactly 32 bytes"
BREAKS="the multiplication complexity looks at the base only when it exceeds the modulus by more than one word"
EDITS=[("ethereum/berlin/vm/precompiled_contracts/modexp.py",'''    max_length = max(Uint(base_length), Uint(modulus_length))
    words = (max_length + Uint(7)) // Uint(8)
''','''    max_length = max(Uint(base_length), Uint(modulus_length))
    words = max_length // Uint(8) + Uint(1)
''')]
DEMO='''
f = Fork("berlin")
def cost(b, m):
    data = b.to_bytes(32, "big") + (32).to_bytes(32, "big") + m.to_bytes(32, "big")
    data += b"\\xff" * (b + 32 + m)
    e = f.call(to=5, data=data, gas=10**6, code=b"")
    return 10**6 - int(e.gas_left)
for b, m in [(33, 1), (64, 32), (65, 64), (128, 7)]:
    w = (max(b, m) + 7) // 8
    assert cost(b, m) == max(200, w * w * 255 // 3), (b, m, cost(b, m))
'''
