#!/usr/bin/env python3
"""C05: text and chat messages become the token ids that the model's tokenizer.json defines, and ids become the text again.

Oracles: HuggingFace `tokenizers` built from the same generated vocabulary, merges and special tokens (BPE, special tokens,
chat prompts); Python's `regex` (pre-tokenization patterns); `unicodedata` (character classes); leftmost-longest matching by
definition (special tokens); round trips (decode after encode, UTF-8 conversions, byte map).
"""
import ctypes, json, os, sys, tempfile, unicodedata
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec(san=True)
import regex
import tokenizers as hf
from tokenizers import models as hfm, pre_tokenizers as hfp, normalizers as hfn
import rt
from vh import need, eq, short

T = "mllm/preprocessor/tokenizers/"
R = rt.RT("c05", [], ["c05_tok.cpp"],
          extra=["mllm/backends/base/PluginSystem.cpp", T + "llama_cpp_unicode/unicode.cpp", T + "llama_cpp_unicode/unicode-data.cpp"],
          more_unity=[T + x for x in ("AutoTokenizer.cpp", "BPE.cpp", "BPEUTF8.cpp", "Unicode.cpp")] + ["mllm/nn/Module.cpp"], flags=("-O1", "-DXXH_INLINE_ALL"))
L = R.L
I64, U32, VP = ctypes.c_int64, ctypes.c_uint32, ctypes.c_void_p
for n, r in (("out_size", I64), ("tok_encode", I64), ("tok_padded", I64), ("cpt_lower", U32), ("out_data", VP)):
    getattr(L, n).restype = r
L.cpt_flags.argtypes = L.cpt_lower.argtypes = [U32]

QWEN = r"(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\r\n\p{L}\p{N}]?\p{L}+|\p{N}| ?[^\s\p{L}\p{N}]+[\r\n]*|\s*[\r\n]+|\s+(?!\S)|\s+"
NPU = QWEN.replace(" ?[^", "[^")  # as its header states it
LLAMA3 = QWEN.replace(r"|\p{N}|", r"|\p{N}{1,3}|")
LLAMA3B = LLAMA3.replace("(?i:'s|'t|'re|'ve|'m|'ll|'d)", "(?:'[sS]|'[tT]|'[rR][eE]|'[vV][eE]|'[mM]|'[lL][lL]|'[dD])")
GPT2A = r"'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)"
GPT2B = GPT2A + r"|\s+"

Q = "<|endoftext|> <|im_start|> <|im_end|> <|object_ref_start|> <|object_ref_end|> <|box_start|> <|box_end|> <|quad_start|> <|quad_end|> <|vision_start|> <|vision_end|> <|vision_pad|> <|image_pad|> <|video_pad|>".split()
SPECIAL = {
    "qwen3": Q + ["<think>", "</think>"], "qwen3_moe": Q + ["<think>", "</think>"], "qwen_ascend": Q + ["<think>", "</think>"],
    "qwen2vl": Q, "qwen_npu": Q[:3] + ["<unk>"],
    "minicpmo": [],
    "minicpm4": ["<|im_start|>", "<|im_end|>", "<|endoftext|>", "<|tool_call|>", "<|execute_start|>", "<|execute_end|>", "<|fim_prefix|>", "<|fim_middle|>", "<|fim_suffix|>"],
    "smollm3": ["<|im_end|>", "<|begin_of_text|>", "<|end_of_text|>", "<think>", "</think>", "<|im_start|>"],
    "deepseek_ocr": ["<|User|>", "<|Assistant|>", "<｜begin▁of▁sentence｜>", "<｜end▁of▁sentence｜>", "<｜▁pad▁｜>", "<image>", "<|grounding|>", "<tr>", "</tr>"],
    "tiny_llama": ["<s>", "</s>", "<unk>"],
}
PATTERN = {k: QWEN for k in ("qwen3", "qwen3_moe", "qwen_ascend", "qwen2vl", "minicpmo")} | {"qwen_npu": NPU, "smollm3": GPT2B, "deepseek_ocr": GPT2B}
KINDS = sorted(SPECIAL)
IM = "<|im_start|>user\n%s<|im_end|>\n<|im_start|>assistant\n"
MESSAGE = {
    "qwen3": IM + "<think>\n\n</think>\n\n", "qwen3_moe": IM, "minicpm4": IM,
    "qwen_npu": "<|im_start|>system\nYou are a helpful assistant.<|im_end|>\n" + IM,
    "tiny_llama": "<|system|>be brief</s><|user|>%s</s><|assistant|>",
}
DECODES = ("qwen_ascend", "minicpm4", "smollm3", "deepseek_ocr")
PIECES = ("qwen3", "qwen3_moe", "qwen_ascend", "qwen2vl", "qwen_npu", "tiny_llama")
SPM = ("minicpm4", "tiny_llama")


def byte_map():
    bs = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    m, n = {b: chr(b) for b in bs}, 0
    for b in range(256):
        if b not in m:
            m[b] = chr(256 + n)
            n += 1
    return m


BYTES = byte_map()
UNBYTE = {v: k for k, v in BYTES.items()}


# ---- text

def cls(cp, db=unicodedata):
    c = db.category(chr(cp))
    return "Z" if c[0] == "Z" else c[0]


def stable(cp):
    """same class in Unicode 3.2 and now: no table in use, of whatever version, may disagree about it"""
    if 0xD800 <= cp < 0xE000 or cp == 0x17F or 0x1C <= cp <= 0x1F: return False
    a, b = cls(cp), cls(cp, unicodedata.ucd_3_2_0)
    return a == b and unicodedata.category(chr(cp)) != "Cn"


POOL = {}
for cp in range(0x80, 0x30000):
    if stable(cp): POOL.setdefault(cls(cp), []).append(cp)
SPACES = [0x85, 0xA0, 0x1680, 0x2000, 0x2003, 0x2009, 0x2028, 0x2029, 0x202F, 0x3000, 0x0B, 0x0C]
WORDS = "the token Hello WORLD naïve Straße привет Ελλάδα 你好 世界 こんにちは नमस्ते ﷽ don 😀👍🏽 a b I x é".split()


def gen_bit(s, special):
    k = s.weighted([(6, "word"), (4, "sp"), (3, "punct"), (3, "digit"), (3, "nl"), (2, "apos"), (2, "uspace"), (2, "cat"), (3, "special"), (2, "part"), (1, "ctl"), (1, "uline")])
    if k == "word": return s.choice(WORDS)
    if k == "sp": return " " * s.int(1, 4)
    if k == "punct": return "".join(s.choice(list("!\"#$%&'()*+,-./:;<=>?@[]^_`{|}~\\")) for _ in range(s.int(1, 3)))
    if k == "digit": return "".join(s.choice(list("0123456789")) for _ in range(s.int(1, 5)))
    if k == "nl": return "".join(s.choice(["\n", "\r", "\r\n", "\n\n", "\t", " ", " \n", "\n "]) for _ in range(s.int(1, 3)))
    if k == "apos":
        return "'" + s.choice(["s", "t", "re", "ve", "m", "ll", "d", "S", "T", "RE", "Ve", "lL", "M", "D", "r", "v", "l", "x", "é", " "])
    if k == "uspace": return "".join(chr(s.choice(SPACES)) for _ in range(s.int(1, 3)))
    if k == "cat":
        c = s.choice(sorted(POOL))
        return "".join(chr(POOL[c][s.int(0, len(POOL[c]) - 1)]) for _ in range(s.int(1, 3)))
    if k == "ctl": return chr(s.choice([0, 1, 7, 8, 27, 127, 0x200D, 0xFEFF, 0xE000]))
    if k == "uline": return "▁" * s.int(1, 2)
    if not special: return "<"
    w = s.choice(special)
    if k == "special": return w
    a = s.int(0, len(w) - 1)
    return w[a:s.int(a + 1, len(w))]


def gen_text(s, special, most=14):
    return "".join(s.list(lambda q: gen_bit(q, special), 0, most))


# ---- the wrapper

def out():
    n = L.out_size()
    return ctypes.string_at(L.out_data(), n) if n else b""


def encode(i, data, message=0):
    cap = 4 * len(data) + 4096
    ids = (I64 * cap)()
    n = L.tok_encode(i, data, I64(len(data)), message, ids, I64(cap))
    if n < 0: return None
    need(n <= cap, "more tokens than bytes")
    return list(ids[:n])


def pieces():
    return [p for p in out().split(b"\xff")[:-1]]


# ---- special tokens

ALPHA = list("ab<|>c") + ["中", "😀", "▁"]


def gen_trie(s):
    words = s.list(lambda q: "".join(q.choice(ALPHA[:q.choice([2, 3, 9])]) for _ in range(q.int(1, 5))), 1, 7)
    if s.bool(0.5):
        w = s.choice(words)
        words += [w + s.choice(ALPHA), w[:-1] + "b", s.choice(ALPHA) + w]
    text = "".join(s.list(lambda q: q.choice(words) if q.bool(0.5) else (lambda w: w[:q.int(0, len(w))] + q.choice(ALPHA))(q.choice(words)), 0, 8))
    return {"wide": s.int(0, 1), "words": [w for w in words if w], "text": text}


def leftmost_longest(words, text):
    ws = sorted(set(words), key=len, reverse=True)
    res, i, plain = [], 0, ""
    while i < len(text):
        m = next((w for w in ws if text.startswith(w, i)), None)
        if m is None:
            plain += text[i]
            i += 1
            continue
        if plain: res.append(plain)
        plain = ""
        res.append(m)
        i += len(m)
    return res + ([plain] if plain else [])


def run_trie(c, st):
    bs = [w.encode() for w in c["words"]]
    arr = (ctypes.c_char_p * len(bs))(*bs)
    lens = (I64 * len(bs))(*map(len, bs))
    t = c["text"].encode()
    r = L.trie_split(c["wide"], len(bs), arr, lens, t, I64(len(t)))
    need(r == 0, "split(%r) threw", c["text"])
    got = [p.decode() for p in pieces()]
    want = leftmost_longest(c["words"], c["text"])
    eq([g[1:] for g in got], want, "pieces of %r for the special tokens %s" % (c["text"], c["words"]))
    eq([g[0] for g in got], ["S" if w in c["words"] else "T" for w in want], "which pieces are special tokens")
    n = sum(w in c["words"] for w in want)
    if n and len(set(c["words"])) > 1:
        st.hit("nested" if any(a != b and b.startswith(a) for a in c["words"] for b in c["words"]) else "flat")


# ---- pre-tokenization

def gen_split(s):
    text = gen_text(s, ["<|im_start|>"], 20)
    if s.bool(0.03): text = s.choice(["a", " ", "1", "!", "é", "\n"]) * s.int(2000, 40000) + text
    return {"expr": s.choice([GPT2A, GPT2B, LLAMA3, LLAMA3B]), "text": text}


def run_split(c, st):
    t = c["text"].encode()
    arr = (ctypes.c_char_p * 1)(c["expr"].encode())
    r = L.regex_split(t, I64(len(t)), 1, arr)
    need(r == 0, "splitting %s with %s threw %s", short(c["text"]), c["expr"], out())
    got = [bytes(UNBYTE[ch] for ch in p.decode()).decode() for p in pieces()]
    # GPT2A stands for the whole GPT-2 pattern: what it does not match is left to \s+
    want = regex.findall(GPT2B if c["expr"] == GPT2A else c["expr"], c["text"])
    eq(got, want, "words of %s with %s" % (short(c["text"]), c["expr"]))
    if len(want) > 2: st.hit("gpt2" if c["expr"] in (GPT2A, GPT2B) else "llama3")


# ---- tokenizers

def learn(s, words, n, special):
    """BPE merges, each of a pair that stands somewhere in the words after the earlier merges"""
    words = [list(w) for w in words if len(w) > 1]
    made, merges = {c for w in words for c in w} | set(special), []
    for _ in range(n):
        pairs = [(w, i) for w in words for i in range(len(w) - 1)]
        if not pairs: break
        w, i = s.choice(pairs)
        a, b = w[i], w[i + 1]
        if a + b in made:
            if s.bool(0.2): break
            continue
        merges.append((a, b))
        made.add(a + b)
        for v in words:
            j = 0
            while j < len(v) - 1:
                if v[j] == a and v[j + 1] == b: v[j:j + 2] = [a + b]
                j += 1
    return merges


def gen_tok(s):
    kind = s.choice(KINDS)
    spec = SPECIAL[kind]
    texts = s.list(lambda q: gen_text(q, spec), 1, 6)
    if s.bool(0.02): texts.append(s.choice(["a", " ", "é", "1", "\n"]) * s.int(300, 1500))
    spm = kind in SPM
    # no byte fallback in mllm: every character that can occur is in such a vocabulary
    words = []
    for t in texts + ["hello world \n\n the token don't"]:
        if spm: words += [("▁" + t.replace(" ", "▁"))[:120]]
        else: words += ["".join(BYTES[b] for b in w.encode())[:60] for w in (regex.findall(PATTERN[kind], t) if s.bool(0.8) else [t])]
    merges = learn(s, words, s.int(0, 60), spec)
    return {"kind": kind, "texts": texts, "merges": [list(m) for m in merges], "order": s.seed(), "as_array": s.bool(), "hf": s.int(0, 1),
            "bos": s.int(0, 1), "ids": s.ints(-1, 400, 0, 12), "chunk": s.int(1, 40), "len": s.int(0, 60)}


def run_tok(c, st):
    import random
    kind = c["kind"]
    spec, spm = SPECIAL[kind], kind in SPM
    if spm:
        full = "".join(c["texts"]) + "".join(spec) + (MESSAGE.get(kind, "") + "be brief")
        base = sorted(set("▁" + full.replace(" ", "▁")) | {ch for m in c["merges"] for ch in "".join(m)})
    else:
        base = sorted(BYTES.values())
    toks = list(dict.fromkeys(base + [a + b for a, b in c["merges"]]))
    random.Random(c["order"]).shuffle(toks)
    off = len(spec) if spm else 0  # Llama-like vocabularies start with their special tokens
    vocab = {t: i + off for i, t in enumerate(toks)}
    sid = {t: (i if spm else len(toks) + i) for i, t in enumerate(spec)}
    conf = {"model": {"type": "BPE", "vocab": vocab, "merges": c["merges"] if c["as_array"] else [" ".join(m) for m in c["merges"]]},
            "added_tokens": [{"id": i, "content": t, "special": True} for t, i in sid.items()]}
    if kind == "tiny_llama": conf["model"]["vocab"] = {**sid, **vocab}
    elif spm and c["hf"]: conf["model"]["vocab"] = {**sid, **vocab}

    ref = hf.Tokenizer(hfm.BPE(vocab={**vocab, **sid} if spm else vocab, merges=[tuple(m) for m in c["merges"]]))
    if spm: ref.normalizer = hfn.Sequence([hfn.Prepend("▁"), hfn.Replace(" ", "▁")])
    else: ref.pre_tokenizer = hfp.Sequence([hfp.Split(hf.Regex(PATTERN[kind]), "isolated"), hfp.ByteLevel(add_prefix_space=False, use_regex=False)])
    ref.add_special_tokens([hf.AddedToken(t, special=True, normalized=False) for t in sorted(sid, key=sid.get)])
    for t, i in sid.items(): need(ref.token_to_id(t) == i, "HARNESS: special token id")

    def expect(text):
        ids = ref.encode(text, add_special_tokens=False).ids
        return [sid["<s>"]] + ids if kind == "tiny_llama" and c["bos"] else ids

    d = tempfile.mkdtemp(prefix="c05_")
    path = os.path.join(d, "hf.json" if c["hf"] else "tok.json")
    try:
        with open(path, "w") as f: json.dump(conf, f, ensure_ascii=c["as_array"])
        with open(path + ".merges", "w") as f: f.write("#version: 0.2\n" + "".join(a + " " + b + "\n" for a, b in c["merges"]))
        r = L.tok_open(1, kind.encode(), path.encode(), c["bos"])
        need(r == 0, "cannot load the tokenizer: %s", out())
        for text in c["texts"]:
            data = text.encode()
            want = expect(text)
            got = encode(1, data)
            show = ref.encode(text, add_special_tokens=False).tokens
            eq(got, want, "%s ids of %s (%s)" % (kind, short(text), short(show)))
            if kind in MESSAGE:
                eq(encode(1, data, 1), expect(MESSAGE[kind] % text), "%s ids of the chat prompt for %s" % (kind, short(text)))
            if kind in DECODES:
                a = (I64 * max(1, len(got)))(*got)
                need(L.tok_decode(1, a, I64(len(got))) == 0, "decode threw %s", out())
                back = out().decode("utf8", "backslashreplace")
                if spm:
                    w = "".join(x if x in sid else "▁" + x.replace(" ", "▁") for x in leftmost_longest(spec, text))
                    w = (w[1:] if w[:1] == "▁" else w).replace("▁", " ")
                else: w = text
                eq(back, w, "%s text decoded from the ids of %s" % (kind, short(text)))
            if kind in PIECES:
                ok, whole = True, b""
                for i in got:
                    t = ref.id_to_token(i)
                    if kind == "tiny_llama": w = b"" if t in ("<s>", "</s>") else t.replace("▁", " ").encode()
                    else: w = t.encode() if t in sid else bytes(UNBYTE[ch] for ch in t)
                    need(L.tok_piece(1, I64(i).value) == 0, "detokenize(%d) threw %s", i, out())
                    try: w.decode()
                    except UnicodeDecodeError: ok = False; continue  # part of a character
                    eq(out(), w, "%s text of token %r" % (kind, t))
            if kind == "qwen_npu":
                for chunk, ln in ((c["chunk"], 0), (0, max(c["len"], len(want)))):
                    cap = 4 * len(data) + 4096
                    ids, real = (I64 * cap)(), I64(-1)
                    n = L.tok_padded(1, data, I64(len(data)), chunk, ln, 7777, ctypes.byref(real), ids, I64(cap))
                    total = -(-len(want) // chunk) * chunk if chunk else ln
                    eq((n, real.value), (total, len(want)), "padded length and real length of %s" % short(text))
                    eq(list(ids[:n]), want + [7777] * (total - len(want)), "padded ids of %s" % short(text))
            if len(want) > 3 and len(c["merges"]) > 3: st.hit(kind)
        # ids that no text gave
        for i in c["ids"]:
            t = ref.id_to_token(i) if i >= 0 else None
            if kind in PIECES:
                need(L.tok_piece(1, i) == 0, "detokenize(%d) threw %s", i, out())
                if t is None: eq(out(), b"", "text of the unknown id %d" % i)
        L.tok_clear()
    finally:
        for f in (path, path + ".merges"):
            if os.path.exists(f): os.remove(f)
        os.rmdir(d)


# ---- characters and encodings

def gen_cpt(s):
    how = s.choice(["class", "class", "trip", "bytes", "raw"])
    if how in ("class", "trip"):
        lo = s.choice([0, 0, 0x80, 0x400, 0x2000, 0x3000, 0xA000, 0xF000, 0x10000, 0x1F000, 0x20000])
        cps = [cp for cp in s.ints(lo, lo + s.choice([0x80, 0x400, 0x1000, 0x10000 - 1]), 1, 200) if not 0xD800 <= cp < 0xE000]
        return {"how": how, "cps": cps}
    return {"how": how, "bytes": s.ints(0, 255, 0, 120)}


SPACE_CPS = {*range(9, 14), 32, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000}


def run_cpt(c, st):
    how = c["how"]
    if how == "class":
        for cp in c["cps"]:
            f = L.cpt_flags(cp)
            if stable(cp) or cp < 0x1C:
                want = {"N": 1, "L": 2, "Z": 4, "M": 8, "P": 16, "S": 32, "C": 64}[cls(cp)]
                eq(f & 127, want, "class of U+%04X" % cp)
                eq(bool(f & 128), cp in SPACE_CPS, "white space, U+%04X" % cp)
                ch = chr(cp)
                if unicodedata.category(ch) in ("Lu", "Ll", "Lo") and len(ch.lower()) == 1 and cp < 0x250:
                    eq(L.cpt_lower(cp), ord(ch.lower()), "lower case of U+%04X" % cp)
        st.hit("classes")
        return
    if how == "trip":
        data = "".join(map(chr, c["cps"])).encode()
        for h in (0, 1):
            need(L.utf8_trip(h, data, I64(len(data))) == 0, "conversion threw %s", out())
            eq(out(), data, "UTF-8 after a conversion to code points and back (%d)" % h)
        if data: st.hit("round trip")
        return
    data = bytes(c["bytes"])
    if how == "bytes":
        want = "".join(BYTES[b] for b in data).encode()
        for h in (2, 4):
            need(L.utf8_trip(h, data, I64(len(data))) == 0, "byte map threw %s", out())
            eq(out(), want, "the byte map (%d)" % h)
        need(L.utf8_trip(3, data, I64(len(data))) == 0, "byte map threw %s", out())
        eq(out(), data, "bytes after the byte map and back")
        if data: st.hit("byte map")
        return
    # malformed text: whatever comes out, in bounds and without losing the well-formed characters before the first bad byte
    L.utf8_trip(0, data, I64(len(data)))
    try: data.decode(); good = len(data)
    except UnicodeDecodeError as e: good = e.start
    need(out().startswith(data[:good]), "%r became %r", data, out())
    L.utf8_trip(1, data, I64(len(data)))
    if good < len(data): st.hit("malformed")


PARTS = [
    vh.Part("special", gen_trie, run_trie, quick=30000, cpu_limit=20),
    vh.Part("pretokenize", gen_split, run_split, quick=20000, cpu_limit=30),
    vh.Part("tokenizers", gen_tok, run_tok, quick=6000, cpu_limit=60),
    vh.Part("characters", gen_cpt, run_cpt, quick=10000, cpu_limit=20),
]
RULE = ("special: at least one special token found and two exist; pretokenize: more than two words; tokenizers: a text of more than "
        "three tokens with more than three merges; characters: classes compared, or a non-empty conversion, or malformed bytes")
ASSUME = ["vocabularies whose merges are in the order in which they were learned (as trained vocabularies are)",
          "characters whose class is the same in Unicode 3.2 and today; U+017F and U+001C-1F left out",
          "tokenizer.json normalizers (NFC) and byte fallback are not implemented by mllm and not part of the property",
          "deepseek_ocr and smollm3 use the GPT-2 pattern that their source declares; qwen_npu the pattern of its header comment"]
if __name__ == "__main__": vh.main("C05", PARTS, RULE, ASSUME)
