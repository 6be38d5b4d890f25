#!/usr/bin/env python3
"""Rewrite the `fixed` list of known_findings.json from /repo's fix commits."""
import json, subprocess, sys
P = {
 "scale-preferred declarators chose": ("W11", "local quantity!(1.0, m2), dag, min, or a module in Gram/Centimeter/Minute/... stored in the wrong unit or did not compile"),
 "scale-preferred declarators refused": ("W11", "1m_u32, quantity!(1, m, u8) did not compile in a scale-preferred module"),
 "branded declarators refused": ("W11", "quantity!(1.0, ft) and 1.0ft did not compile in a branded copy of the declarators"),
"quantities branded by": ("W03","==, < and partial_cmp between two quantities of one define_unit_declarators brand did not compile (the generated brand type lacked PartialEq/PartialOrd)"),
 "literals of a local scale": ("W24", "#[culit(crate::scale::literals)] outside the crate root: the literals named the macro of the scale by its bare name (cannot find macro scale_quantity)"),
 "scale factors for exponents beyond": ("W04", "the factor of a prefixed/compound scale whose exponent lay outside the lookup tables was taken as 1"),
 "scales of the gradian": ("W08", "gradian, arcminute and arcsecond were off by their defining ratios (and so W04)"),
 "zero point of the Fahrenheit": ("W08", "0 degF was not 459.67 degR"),
 "dynamic viscosity is": ("W08", "poise/rayl-like dynamic viscosity had the exponents of another quantity"),
 "integer rescaling when": ("W05", "integer rescaling divided by zero, overflowed or floored when the ratio did not fit or the value was negative"),
 "reduce_rational assumed": ("W05", "reduce_rational looped nearly forever or kept common twos"),
 "unknown units, stray numbers": ("W07", "an unknown unit, stray number or unrepresentable exponent was silently read as 1 (and so W08, W13)"),
 "quantity! ignored exponent": ("W09", "quantity!(v, ft2) / (v, ft, i32) / brand dropped exponent, storage type and brand (and so W07)"),
 "default declarators ignored": ("W09", "declarators/literals of a dimension whose first unit has a scale dropped that scale (and so W08)"),
 "value! of an affine unit": ("W10", "value!(q, degC) given by name subtracted the offset in the wrong storage unit"),
 "serialization dropped": ("W12", "serialized quantities named the unscaled unit"),
 "serialized compound units": ("W12", "serialized compound units could not be read back"),
 "infinite and tiny": ("W15", "inf and tiny values were printed as NaN"),
 "scales of the acre": ("W08", "acre and foot-pound were off in the fourth digit or more"),
 "run-time unit text could": ("W13", "the run-time reader refused the inch (in) and attosecond (as)"),
 "reading a value and unit": ("W13", "reading a long `5m`-style text took quadratic time"),
 "a unit containing spaces": ("W13", "`5m / s` was refused although `5 m / s` is accepted"),
 "printed unit names lost": ("W15", "1 kHz was printed as Hz, 10^3/m as km-1, 60 m/s as m/min, 6 kg as kg, kg2 as g2"),
 "erasing a plain integer": ("W06", "a plain dimensionless i64 of 2^53+1 became 2^53 as i128/u64/..."),
 "generic dimensions refused": ("W16", "define_generic_dimension!(X, J) was unknown and (X, Θ2) panicked, both documented"),
 "show a unit only for quantity types whose": ("W20", "Quantity<Scale<…>, Dimension<…>>, Scale<_2<P2>> and other texts that determine no unit were shown as a definite unit; a brand containing _L<3> etc. changed the exponents"),
 "show an unresolved scale": ("W20", "a partly inferred scale was shown as the factor (0)"),
 "show units in ASCII": ("W20", "WHIPPYUNITS_UNICODE=false / --no-unicode had no effect"),
 "inlay hints lost digits": ("W20", "m¹² was shown as m², 10¹⁵ as 10⁵"),
 "hovers lost text": ("W20", "only the first rust block of a hover was shown, documentation was dropped, non-ASCII code panicked"),
 "rewritten messages lost": ("W19", "hover actions and unknown fields vanished and nulls appeared in messages with quantity types"),
 "inlay hints dropped parts": ("W20", "label parts around a quantity type were swallowed, later types of the label left raw"),
 "hint edits did not": ("W20", "the offered unit!(…) did not parse or was another type, at another range"),
 "whippyunits-pretty altered": ("W20", "a non-UTF-8 line ended the tool, CRLF and final newlines changed"),
 "a message with more headers": ("W19", "Content-Type or a lower-case header name ended the session"),
 "the proxy ended sessions": ("W19", "messages were lost when the editor closed its side, or the server closed or wrote non-UTF-8 to its stderr"),
 "hints were left raw next": ("W20", "a split hint was left raw when the message also contained another Quantity<…>"),
 "the largest finite": ("W15", "f64::MAX was printed as inf"),
"f32 rescaling took ratios outside": ("W04", "rescale_f32 by a ratio outside the range of f32 (quettametre to quectometre): NaN for 0, infinity or a value off by 5e-5 and more for results well inside the range"),
"unit literals were looked up with the wrong prefix": ("W21", "get_target_unit_dimensions(\"rg\"), (\"fg\"): scale of another prefix; (\"dam\"), (\"microgram\"): panicked"),
"looking up a unit by literal took": ("W21", "find_by_literal(\"cd\") answered centi-day, (\"dam\") nothing, (\"mss\") metre"),
"report an unparsable unit": ("W22", "from_string!(s, m^x), from_json!(s, 2), ...: `proc macro panicked` instead of an error about the unit"),
"refuse dimension expressions": ("W22", "define_generic_dimension!(X, L^32767*L^32767), (X, L^99999): `proc macro panicked` (or, with overflow checks off, silently L^-2)"),
"name what is unknown": ("W22", "local_unit!(metr, ...) failed with `expected a trait, found type`; an unknown scale 'Newton' suggested 'Newton'; a misspelt dimension suggested names that cannot be written"),
 "from_json! and from_string! need": ("W24", "from_json!/from_string! did not compile in a crate that depends on whippyunits alone, or where the caller has its own Result, Ok or Err"),
 "rescale! does not hide": ("W24", "rescale!(TargetQuantity::get(q), mm): the caller's TargetQuantity was replaced by the macro's"),
 "find_by_literal finds prefixed derived": ("W21", "Dimension::find_by_literal knew kN but found nothing for mL, kHz, mV, kiloohm"),
 "as_basis answers a basis only": ("W25", "as_basis of [1,1,-2,0,0,0,0,0] (force) was Mass; si_base_units listed newton, joule, ..."),
 "type-level dimension exponents subtract": ("W25", "(Length::new() - Time::new()).value() was L^1 T^1"),
 "quantity! evaluates its arguments outside": ("W24", "quantity!(1.0, m, f64, Scale) or quantity!(ImperialLength::get(1.0), ft): the caller's type was replaced by the library's"),
 "a raw identifier in a dimension expression": ("W22", "define_generic_dimension!(X, r#L2): `proc macro panicked`"),
"an unresolved scale of a mass": ("W20", "Quantity<Scale<_2<_>, _3<0>, _5<_>, _Pi>, Dimension<_M<1>, ...>> was shown as 10^-32765 g"),
}
P.update(json.load(open("/verif/tools/fixed_extra.json")) if __import__("os").path.exists("/verif/tools/fixed_extra.json") else {})
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    for k,(p,w) in P.items():
        if s[5:].startswith(k):
            out.append(f"fixed: property={p} {h} {w}"); break
    else: sys.exit("no entry for "+l)
d=json.load(open("/verif/known_findings.json")); d["fixed"]=out
json.dump(d,open("/verif/known_findings.json","w"),indent=1,ensure_ascii=False); open("/verif/known_findings.json","a").write("\n")
print(len(out))
