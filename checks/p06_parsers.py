#!/usr/bin/env python3
"""P06: reasoning and tool-call parsing do not depend on how the text is cut into deltas."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec()
from vh import Part, need, eq

TAGS = {"deepseek-r1": ("<think>", "</think>", True), "qwen3": ("<think>", "</think>", False),
        "qwen3-thinking": ("<think>", "</think>", True), "glm45": ("<think>", "</think>", False),
        "kimi": ("◁think▷", "◁/think▷", False)}
WORDS = ["a", "Hello ", "x < y ", "<", "</", "\n", "\n\n", " ", "é", "日本", "🙂", "think>", "<b>", "{", "}", '"', "<t", "◁", "0.5", "<<", "/think"]


def cut(text, cuts):
    out, i = [], 0
    for c in cuts:
        if i >= len(text):
            break
        out.append(text[i:i + c])
        i += c
    out.append(text[i:])
    return out


def gen_cuts(s):
    m = s.weighted([(3, "small"), (1, "one"), (2, "any")])
    if m == "one":
        return [1] * 400
    return s.list(lambda s: s.int(0 if s.bool(.1) else 1, 3 if m == "small" else 30), 0, 60)


def gen_reason(s):
    m = s.choice(sorted(TAGS))
    a, b, _ = TAGS[m]

    def frag(s):
        k = s.weighted([(5, "w"), (2, "s"), (2, "e"), (1, "ps"), (1, "pe")])
        if k == "w":
            return s.choice(WORDS)
        t = a if k in ("s", "ps") else b
        return t if k in "se" else t[:s.int(1, len(t) - 1)]
    return {"model": m, "text": "".join(s.list(frag, 0, 12)), "cuts": gen_cuts(s), "stream": s.bool(.75)}


def run_reason(c, st):
    from pymllm.parsers.reasoning_parser import ReasoningParser
    a, b, force = TAGS[c["model"]]
    text = c["text"]
    # the specification
    i = text.find(a)
    if force:
        j = text.find(b)
        body, after = (text, "") if j < 0 else (text[:j], text[j + len(b):])
        if i >= 0 and (j < 0 or i < j):  # a repeated start tag is no text
            body, after = text[:i], text[i + len(a):]
            mid, _, after = after.partition(b)
            body += mid
        reason, content = body, after
    elif i < 0:
        reason, content = "", text
    else:
        rest = text[i + len(a):]
        reason, _, after = rest.partition(b)
        content = text[:i] + after
    got_r, got_c = ReasoningParser(c["model"]).parse_non_stream(text)
    eq(got_r or "", reason.strip(), "reasoning of the whole text")
    eq(got_c.strip(), content.strip(), "content of the whole text")
    if i < 0 and not force:
        eq(got_c, text, "text without reasoning")
    p = ReasoningParser(c["model"], stream_reasoning=c["stream"])
    r, k, fed = "", "", 0
    pieces = []
    for d in cut(text, c["cuts"]):
        fed += len(d)
        x, y = p.parse_stream_chunk(d)
        r, k = r + x, k + y
        if x:
            pieces.append(x)
        held = fed - len(r) - len(k)
        if c["stream"]:
            need(held <= len(a) + len(b) + max(len(a), len(b)), "%d characters held back after %r", held, text[:fed])
        elif x:
            need(b in text[:fed], "reasoning sent before its end although it was to be buffered")
    x, y = p.flush()
    eq(r + x, reason, "streamed reasoning")
    eq(k + y, content, "streamed content")
    if not c["stream"] and reason:
        need(len(pieces) + bool(x) == 1, "buffered reasoning came in pieces")
    if reason and content:
        st.hit("reasoning and content")
    elif reason:
        st.hit("unfinished reasoning" if b not in text else "reasoning only")
    if x or y:
        st.hit("held tail")


NAMES = ["f", "get_weather", "名", "a.b-c"]
STRS = ["", "x", "a b", "日本", "🙂", "line\nbreak", 'quo"te', "back\\slash", "<", "}", "{", "]", "</t", "<tool", "name", "null", "1"]


def gen_val(s, d=0):
    k = s.weighted([(4, "s"), (2, "i"), (1, "f"), (1, "b"), (1, "n")] + ([(1, "l"), (1, "o")] if d < 2 else []))
    if k == "s":
        return s.choice(STRS)
    if k == "i":
        return s.int(-5, 1000)
    if k == "f":
        return s.int(-9, 9) / 4
    if k == "b":
        return s.bool()
    if k == "n":
        return None
    if k == "l":
        return s.list(lambda s: gen_val(s, d + 1), 0, 3)
    return gen_obj(s, d + 1)


def gen_obj(s, d=0):
    return dict(s.list(lambda s: (s.choice(["city", "name", "arguments", "n", "日", "x y"]), gen_val(s, d)), 0, 3))


def gen_tool(s):
    fmt = s.choice(["qwen25", "qwen3_coder", "hermes", "llama3"])

    def call(s):
        c = {"name": s.choice(NAMES), "args": gen_obj(s)}
        if fmt == "qwen3_coder":
            c["sep"] = s.choice(["", "\n"])
            c["raw"] = s.ints(0, 1, 0, 4)
        else:
            c["form"] = [s.bool(.3), s.choice([None, None, 0, 2]), s.bool(.3), s.bool(.3), s.bool(.15), s.bool(.1)]
        return c
    n = 1 if fmt == "llama3" else s.int(0, 4)
    if fmt == "llama3":
        n = s.int(0, 1)
    calls = [call(s) for _ in range(n)]
    texts = ["".join(s.list(lambda s: s.choice(WORDS + ["<tool_call", "<|python", "\n<tool"]), 0, 3)) for _ in range(n + 1)]
    if fmt == "llama3" and n:
        texts[-1] = ""
    bad = s.list(lambda s: s.choice(["", "{", "null", "[1]", '"s"', "12", "{}", '{"name": 5}', '{"name": "f"', '{"name": "f", "arguments": {"a": ',
                                     "<function=", "<function=f><parameter=x>", '{"name": "f", "arguments": [1, 2]}']), 0, 2) if s.bool(.2) else []
    return {"fmt": fmt, "calls": calls, "texts": texts, "cuts": gen_cuts(s), "open": s.bool(.15), "bad": bad}


def render(c):
    """-> list of (call text, expected)"""
    fmt = c["fmt"]
    out = []
    for k in c["calls"]:
        if fmt == "qwen3_coder":
            want, parts = {}, []
            raw = list(k["raw"]) + [0] * 9
            for n, (key, v) in enumerate(k["args"].items()):
                if isinstance(v, str):
                    t = json.dumps(v, ensure_ascii=False) if raw[n] else v
                else:
                    t = json.dumps(v, ensure_ascii=False)
                try:
                    w = json.loads(t.strip())
                except ValueError:
                    w = t.strip()
                want[key] = w
                parts.append(f"<parameter={key}>{k['sep']}{t}{k['sep']}</parameter>")
            body = k["sep"].join([f"<function={k['name']}>"] + parts + ["</function>"])
            out.append((k["sep"] + body + k["sep"], (k["name"], want)))
            continue
        first_args, indent, params, ascii_, as_str, none = k["form"]
        args = k["args"]
        val = json.dumps(args) if as_str else args
        key = "parameters" if params else "arguments"
        o = {key: val, "name": k["name"]} if first_args else {"name": k["name"], key: val}
        if none and not args:
            o = {"name": k["name"]}
            as_str = False
        out.append((json.dumps(o, indent=indent, ensure_ascii=ascii_, separators=(",", ":") if ascii_ and indent is None else None), (k["name"], args)))
    return out


def run_tool(c, st):
    from pymllm.parsers.tool_call_parser import ToolCallParser
    fmt = c["fmt"]
    bot, end = {"qwen25": ("<tool_call>\n", "\n</tool_call>"), "hermes": ("<tool_call>\n", "\n</tool_call>"),
                "qwen3_coder": ("<tool_call>", "</tool_call>"), "llama3": ("<|python_tag|>", "")}[fmt]
    text, content = "", ""
    calls = render(c)
    for t, (body, _) in zip(c["texts"], calls):
        text += t + bot + body + end
        content += t
    text += c["texts"][-1]
    content += c["texts"][-1]
    want = [w for _, w in calls]
    if any(bot in t or (end and end in b) for t, b in zip(c["texts"], [b for b, _ in calls] + [""])) or content.count(bot) or text.count(bot) != len(calls):
        return
    bad = c["bad"] if fmt != "llama3" else []
    for b in bad:  # calls that are none
        text += bot + b + end
    if c["open"] and calls and not bad and not c["texts"][-1] and end:
        text = text[:-len(end)]
        st.hit("call without end token")
    p = ToolCallParser(fmt, tools=[{}])
    eq(p.has_tool_call(text), bot in text, "has_tool_call")
    got_c, got = ToolCallParser(fmt, tools=[{}]).parse_non_stream(text)
    if bot in text:
        eq(got_c, content.strip(), "content of the whole text")
    else:
        eq(got_c, text, "content without calls")
    check([(g.name, [g.arguments], g.index, [g.tool_call_id]) for g in got][:len(want)], want, "one-shot")
    if not bad:
        eq(len(got), len(want), "number of calls")
    for g in got:
        need(isinstance(g.arguments, str), "arguments are text")
        d = g.to_openai_dict(streaming=False)
        need("index" not in d and d["function"]["arguments"] == g.arguments and d["id"] == g.tool_call_id, "message form")
    k, byidx, order, fed = "", {}, [], 0

    def take(items):
        for g in items:
            d = g.to_openai_dict()
            i = d["index"]
            if i not in byidx:
                byidx[i] = [None, [], i, []]
                order.append(i)
            f = d["function"]
            if "name" in f:
                need(byidx[i][0] is None, "a call's name was sent twice")
                byidx[i][0] = f["name"]
            byidx[i][1].append(f["arguments"])
            if "id" in d:
                byidx[i][3].append(d["id"])
    for d in cut(text, c["cuts"]):
        fed += len(d)
        y, items = p.parse_stream_chunk(d)
        k += y
        take(items)
        done = text[:fed]
        if bot not in done:
            need(len(done) - len(k) < len(bot), "%d characters of plain text held back", len(done) - len(k))
    take(p.flush())
    k += p.flush_content()
    eq(k, content, "streamed content")
    eq(order, list(range(len(order))), "order of call indices")
    merged = [tuple(byidx[i]) for i in order]
    check(merged[:len(want)], want, "streamed")
    if not bad:
        eq(len(merged), len(want), "number of streamed calls")
    ids = [i for m in merged[:len(want)] for i in m[3]]
    eq(len(set(ids)), len(want), "ids of streamed calls")
    if want:
        st.hit("calls: %s" % fmt)
        if any(len(m[1]) > 2 for m in merged):
            st.hit("arguments in several deltas")
    if bad:
        st.hit("unparsable calls")


def check(got, want, what):
    eq(len(got), len(want), f"number of {what} calls")
    for i, ((n, a, idx, ids), (wn, wa)) in enumerate(zip(got, want)):
        eq(n, wn, f"{what} name")
        eq(idx, i, f"{what} index")
        need(len(ids) == 1 and ids[0], f"{what} call has one id: %s", ids)
        try:
            v = json.loads("".join(a))
        except ValueError:
            need(False, f"{what} arguments are no JSON: %r", a)
        eq(v, wa, f"{what} arguments")


if __name__ == "__main__":
    vh.main("P06", [Part("reasoning", gen_reason, run_reason, 40000, shards=4), Part("tools", gen_tool, run_tool, 24000, shards=4)],
            "a text counts when it holds reasoning (finished or not), a tail that looked like a tag, tool calls (per format), several argument deltas or an unparsable call",
            ["A qwen3_coder call does not repeat a parameter; tags do not occur inside tool arguments."])
