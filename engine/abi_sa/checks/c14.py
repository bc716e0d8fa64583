"""The three error tables are evaluated by the compiler for every enumerator: each message must be its own, non-empty, different
from the fallback text and nearest to the published text of that same error.  The mapping from JSON parser errors is evaluated
for every parser code and must lead to the library error of the same name.  Then each elementary operation is analysed by
abstract interpretation and the text of every exception it can raise, and the condition under which it is raised, is compared
with the error that occurred."""
import difflib, re
from ..eng import *
from ..tokens import *

TECHNIQUE = "compile-time table evaluation; abstract interpretation of each operation's exceptions"
LEVEL = "proof"

PUBLISHED = {
 "json": dict(no_error="No error", expected_end="Expected end of json", expected_null="Expected null", expected_bool="Expected true or false",
   expected_string="Expected string", expected_hex_string="Expected string containing hex", hex_string_incorrect_length="Hex string has incorrect length",
   invalid_signature="Invalid signature format", invalid_name="Invalid name", expected_start_object="Expected {", expected_key="Expected key",
   expected_end_object="Expected }", expected_start_array="Expected [", expected_end_array="Expected ]", expected_positive_uint="Expected positive integer",
   expected_field="Expected field", expected_variant='Expected variant: ["type", value]', expected_public_key="Expected public key",
   expected_private_key="Expected private key", expected_signature="Expected signature", expected_number="Expected number or boolean",
   expected_int="Expected integer", expected_time_point="Expected time point", expected_symbol_code="Expected symbol code", expected_symbol="Expected symbol",
   expected_asset="Expected asset", invalid_type_for_variant="Invalid type for variant", unexpected_field="Unexpected field",
   number_out_of_range="number is out of range", from_json_no_pair="from_json does not support std::pair", document_empty="The document is empty",
   document_root_not_singular="The document root must not follow by other values", value_invalid="Invalid value",
   object_miss_name="Missing a name for object member", object_miss_colon="Missing a colon after a name of object member",
   object_miss_comma_or_curly_bracket="Missing a comma or '}' after an object member",
   array_miss_comma_or_square_bracket="Missing a comma or ']' after an array element",
   string_unicode_escape_invalid_hex="Incorrect hex digit after \\u escape in string", string_unicode_surrogate_invalid="The surrogate pair in string is invalid",
   string_escape_invalid="Invalid escape character in string", string_miss_quotation_mark="Missing a closing quotation mark in string",
   string_invalid_encoding="Invalid encoding in string", number_too_big="Number too big to be stored in double", number_miss_fraction="Miss fraction part in number",
   number_miss_exponent="Miss exponent in number", terminated="Parsing was terminated", unspecific_syntax_error="Unspecific syntax error"),
 "stream": dict(no_error="No error", overrun="Stream overrun", underrun="Stream underrun", float_error="Float error", varuint_too_big="Varuint too big",
   invalid_varuint_encoding="Invalid varuint encoding", bad_variant_index="Bad variant index", invalid_asset_format="Invalid asset format",
   array_size_mismatch="T[] size and unpacked size don't match", invalid_name_char="character is not in allowed character set for names",
   invalid_name_char13="thirteenth character in name cannot be a letter that comes after j", name_too_long="string is too long to be a valid name",
   json_writer_error="Error writing json"),
 "abi": dict(no_error="No error", recursion_limit_reached="Recursion limit reached", invalid_nesting="Invalid nesting", unknown_type="Unknown type",
   missing_name="Missing name", redefined_type="Redefined type", base_not_a_struct="Base not a struct", extension_typedef="Extension typedef", bad_abi="Bad ABI"),
}


def table(mod, g, n):
    """[(enumerator name or None, message)] of a driver table"""
    gl = mod.globals[g]; img = mod.gbytes(g)
    ptrs = {o: p for o, p in gl.get("ptrs", [])}
    out = []
    for k in range(n):
        nm = mod.cstr(ptrs[24 * k]).split(b"\0")[0].decode()
        ln = int.from_bytes(img[24 * k + 16:24 * k + 24], "little")
        msg = mod.cstr(ptrs[24 * k + 8])[:ln].decode() if 24 * k + 8 in ptrs else ""
        m = re.search(r"E = (?:\w+::)*([a-zA-Z_]\w*)\]", nm)
        out.append((m.group(1) if m else None, msg))
    return out


def snake(s): return re.sub(r"(?<!^)([A-Z])", r"_\1", s).lower()


def msgs(outs):
    """[(outcome, text)] of exceptions"""
    return [(o, o.info[2] if o.info and o.info[0] == "throw" and len(o.info) > 2 else None) for o in outs if o.kind == "throw"]


def tables(mod, rep=None):
    T = {}
    for key, g in (("json", "sa_err_json"), ("jsoni", "sa_err_jsoni"), ("stream", "sa_err_stream"), ("abi", "sa_err_abi")):
        t = table(mod, g, 64)
        if g.startswith("sa_err_json") and t[63][0] is not None: raise build.Broken("more than 63 JSON errors")
        T[key] = t
    return T


def run(rep, tier):
    mod = module(["drv:errors", "src:crypto.cpp"], "errors")
    T = tables(mod)
    allm = {}
    for key in ("json", "stream", "abi"):
        t = T[key]
        generic = {m for n, m in t if n is None}
        pub = PUBLISHED[key]
        for n, m in t:
            if n is None: continue
            rep.ob("message non-empty", n, bool(m), "has no message")
            rep.ob("message not generic", n, m not in generic, "has the fallback message '%s'" % m)
            if n != "no_error":
                o = allm.setdefault(m, n)
                rep.ob("message distinct", n, o == n, "has the same message as %s: '%s'" % (o, m))
            if n in pub and m != pub[n]:
                r = {e: difflib.SequenceMatcher(None, m.lower(), x.lower()).ratio() for e, x in pub.items()}
                best = max(r, key=lambda e: (r[e], e == n))
                rep.ob("message belongs to the error", n, r[best] <= r[n] or r[best] < 0.7, "has the message of %s: '%s'" % (best, m))
            elif n in pub: rep.ob("message belongs to the error", n, True)
    for (n, m), (n2, m2) in zip(T["json"], T["jsoni"]):
        if n: rep.ob("integer overload", n, m == m2, "gives '%s' instead of '%s'" % (m2, m))
    # parser error mapping
    jn = {n: k for k, (n, m) in enumerate(T["json"]) if n}
    jm = {n: m for n, m in T["json"] if n}
    rj = [(k, n) for k, (n, _) in enumerate(table(mod, "sa_err_rj", 32)) if n]
    codes = {}
    for k, n in rj:
        want = snake(n.replace("kParseError", "")); want = {"none": "no_error", "termination": "terminated"}.get(want, want)
        if want not in jn: rep.violation("mapping:" + n, "parser error %s has no library error" % n); continue
        codes[k] = want
        ip, outs = analyse(mod, "sa_convert_error", [const(32, k)])
        got = [o.value.c if o.kind == "ret" and o.value.is_const() else None for o in outs]
        rep.ob("parser error mapping", n, got == [jn[want]], "becomes %s instead of %s" % ([T["json"][g][0] if g is not None and g < 64 else g for g in got], want))
        ip, outs = analyse(mod, "sa_convert_error_sv", [const(32, k), "o"])
        for o in outs:
            r = ip.argregs["o"]
            from ..models import text_of
            tx = text_of(ip, o.state, ip.load_const(o.state, r, 8, 8, "ptr")); ln = ip.load_const(o.state, r, 0, 8, "i64")
            if tx is None:
                tx = text_of(ip, o.state, ip.load_const(o.state, r, 8, 8, "ptr"))
            rep.ob("parser error text", n, tx == jm[want] and ln.is_const() and ln.c == len(jm[want]), "is reported as '%s'" % tx)
    # the token stream reports the parser's error, and the expectation that failed
    tm = tokmod(); lay = Layout(tm)
    EXP = {"null": "expected_null", "bool": "expected_bool", "string": "expected_string", "start_object": "expected_start_object", "key": "expected_key",
           "end_object": "expected_end_object", "start_array": "expected_start_array", "end_array": "expected_end_array"}
    OPS = {"sa_t_" + k: v for k, v in EXP.items()}
    OPS.update({"sa_t_peek": None, "sa_t_null_pred": None, "sa_t_maybe_key": None, "sa_t_end_object_pred": None, "sa_t_start_array_pred": None, "sa_t_end_array_pred": None})

    def start(kinds):
        def f(ip, st):
            b = tokbyte("pre"); st.feas[b] = mask(kinds)
            r = ip.argregs["s"]
            ip.store(st, P(r, const(64, lay.type)), ip.zext(st, mkterm(b), 32), 4, None)
            ip.store(st, P(r, const(64, lay.err)), const(32, 0), 4, None)
        return f
    for op, exp in OPS.items():
        args = ["s"] + (["o"] if op in ("sa_t_string", "sa_t_key", "sa_t_maybe_key") else [])
        for k, want in codes.items():
            if k == 0: continue
            ip, outs = analyse(tm, op, args, start([0]), models=dict(MODELS, **parse_model(lay, k)), limit=40)
            seen = set()
            for o, t in msgs(outs):
                seen.add(t)
                ok = t == jm[want] or (exp and t == jm[exp])
                rep.ob("token stream error", "%s after %s" % (op, want), ok, "reports '%s'" % t)
            rep.ob("parser failure reported", "%s after %s" % (op, want), jm[want] in seen, "is not reported as '%s' but as %s" % (jm[want], sorted(map(str, seen))))
        ip, outs = analyse(tm, op, args, start(range(1, 9)), models=dict(MODELS, **parse_model(lay, 1)), limit=40)
        for o, t in msgs(outs):
            rep.ob("token stream error", "%s on another token" % op, exp is not None and t == jm[exp], "reports '%s'" % t)
    ip, outs = analyse(tm, "sa_t_end", ["s"], start(range(0, 9)), models=dict(MODELS, **parse_model(lay, 1)), limit=40)
    for o, t in msgs(outs): rep.ob("token stream error", "sa_t_end", t == jm["expected_end"], "reports '%s'" % t)
    # elementary binary operations
    sm = {n: m for n, m in T["stream"] if n}
    n64 = mkterm(term(64, 0, (1 << 64) - 1, "sym", ("n",)))
    OPS = {"sa_e_overrun_read": ["overrun"], "sa_e_overrun_skip": ["overrun"], "sa_e_overrun_reuse": ["overrun"], "sa_e_overrun_check": ["overrun"],
           "sa_e_overrun_write": ["overrun"], "sa_e_overrun_write1": ["overrun"], "sa_e_varu32": ["overrun", "invalid_varuint_encoding"],
           "sa_e_varu64": ["overrun", "invalid_varuint_encoding"], "sa_e_array": ["overrun", "invalid_varuint_encoding", "array_size_mismatch"],
           "sa_e_variant": ["overrun", "invalid_varuint_encoding", "bad_variant_index"]}
    for op, want in OPS.items():
        f = fn(mod, op)
        a = []
        for k, x in enumerate(f.args):
            a.append("a%d" % k if x["ty"] == "ptr" else (n64 if x["ty"] == "i64" else mkterm(term(ibits(x["ty"]), 0, (1 << ibits(x["ty"])) - 1, "sym", ("x", k)))))
        ip, outs = analyse(mod, op, a)
        got = {t for o, t in msgs(outs)}
        for e in want: rep.ob("operation reports", "%s: %s" % (op, e), sm[e] in got, "the error is never reported (reports %s)" % sorted(map(str, got)))
        for t in got: rep.ob("operation reports nothing else", "%s: %s" % (op, t), t in [sm[e] for e in want], "reports '%s'" % t)
    names(rep, mod, sm)
    rep.need("message distinct", 60); rep.need("parser error mapping", 15); rep.need("token stream error", 100)


def names(rep, mod, sm):
    """a strict name reader's message names the one defect a text has"""
    from .c22 import LEGAL, LEGAL13, legal

    def case(n, masks, want, what):
        def setup(ip, st):
            for k, m in enumerate(masks): st.feas[byte_at(ip.argregs["text"], k)] = m
        ip, outs = analyse(mod, "sa_e_name", [("text", "bytes"), const(64, n)], setup)
        for o, t in msgs(outs):
            rep.ob("name error", "%d characters, %s" % (n, what), t in [sm[w] for w in want], "reports '%s'" % t)
        rep.ob("name error raised", "%d characters, %s" % (n, what), len(msgs(outs)) == len(outs), "is accepted")
    for n in (1, 5, 12, 13):
        for k in range(n):
            m = legal(n); m[k] = FULL & ~LEGAL
            case(n, m, ["invalid_name_char"] + (["invalid_name_char13"] if k == 12 else []), "illegal character at %d" % k)
    m = legal(13); m[12] = LEGAL & ~LEGAL13
    case(13, m, ["invalid_name_char13"], "thirteenth character after j")
    for n in (14, 16): case(n, legal(13) + [LEGAL] * (n - 13), ["name_too_long"], "too long")
