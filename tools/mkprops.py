#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so wording stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public API: struct_cast_le/be, stream_cast_le/be, operator[]"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

RI="include/field_read/read_impl.hpp"; FR="include/field_read/field_reader.hpp"; SC="include/cast/struct_cast_impl.hpp"
WI="include/field_write/write_impl.hpp"; FW="include/field_write/field_writer.hpp"; TC="include/cast/stream_cast_impl.hpp"
DV="include/field_write/derived_value.hpp"; BO="include/stream/byte_order.hpp"; AM="include/lib/memory/address_manip.hpp"
CV="include/field_validation/field_value_constraints.hpp"; FL="include/field_list/field_list.hpp"; FM="include/field_list/field_list_metadata.hpp"
FS="include/field_size/field_size.hpp"; FO="include/field/field_options.hpp"; TT="include/type_deduction/utils/type_tags.hpp"
SW="include/type_deduction/switch/switch_impl.hpp"; LA="include/type_deduction/if_else_ladder/ladder_impl.hpp"; TI="include/type_deduction/type/type_impl.hpp"
CO="include/field_compute/computation_from_fields_impl.hpp"; FT="include/field/field_traits.hpp"; FD="include/field/field.hpp"
ST="include/stream/stream_traits.hpp"; DE="include/api/field_descriptors.hpp"; SFL="include/api/struct_field_list.hpp"; FX="include/lib/containers/fixed_string.hpp"

prop("C01","A successful read yields exactly the values the bytes encode",
 "For every schema, byte order and input stream, when struct_cast_le/be succeeds every field of the returned struct holds exactly the value its bytes encode: integers in the cast's byte order at their declared width (a narrower declared width zero-extends), arrays and vectors element by element, strings byte for byte, nested records field by field, all taken in declaration order at every nesting level. No byte of one field ever influences another field's value, other than through a declared length, presence predicate or alternative selection.",
 ["inputs","programs"],"every schema built from the documented descriptors, every stream it accepts, both byte orders",
 "The tests decode a few hand-written buffers per descriptor, almost never at a narrower declared width, in nested/foreign-order combinations, or with neighbouring fields of every kind; the statement ranges over all schemas and all bytes.",
 [RI,FR,SC,BO,AM],[("byte-order conversion of scalars and buffers","read_impl, byteswap_elements"),("per-kind field readers","read_field<...>"),("left-to-right fold","struct_cast_impl")])
prop("C02","A failed read names the right reason and the right field",
 "When a read cannot succeed, struct_cast_le/be returns an error and never a struct, and the error is the one of the first field in declaration order that cannot be read: buffer_exhaustion if the stream runs out inside it, validation_failure if a constraint or magic value rejects it, type_deduction_failure if no case or branch selects an alternative, excessive_length if its length exceeds its ceiling; found_contradicting_length never arises from a read. failed_at is that field's id, and for a failure inside a nested record, a record array or vector, an optional or a union alternative it is the id of the outermost enclosing field in the schema that was cast.",
 ["inputs","programs"],"every schema and every stream that does not decode: every truncation point, every constraint violation, every unmatched discriminant, every oversized length, alone or combined",
 "Tests assert the error for a handful of single faults; which of several simultaneous faults is reported first, at which nesting level, for every truncation point of every schema, is not something examples settle.",
 [SC,FR,RI,"include/error/cast_error.hpp"],[("short-circuiting fold","struct_cast_impl, operator| in algorithms.hpp"),("narrowing of nested errors to a reason","read_field<struct_field_like>")])
prop("C03","A read consumes exactly the bytes of the record and no more",
 "A successful struct_cast_le/be leaves the stream positioned immediately after the last byte of the record (an absent optional occupies no bytes, a fixed field its declared width, a container exactly its length in elements), so that records laid end to end are parsed one after another by repeated casts. A failed read never takes bytes beyond the field that failed, and once the stream has refused a read, no further read is attempted on it by that cast.",
 ["inputs","histories","programs"],"every schema, every stream, every sequence of records on one stream",
 "Tests check values, rarely the position afterwards, and never the position after each kind of failure or over long mixed sequences of records on one stream.",
 [FR,RI,SC],[("per-field byte counts","deduce_field_size, checked_byte_count"),("fail-fast fold","struct_cast_impl")],["bytes requested from the stream"])
prop("C04","A successful write emits exactly the encoding of the struct",
 "For every schema, byte order and struct, when stream_cast_le/be succeeds the bytes it emitted are exactly the schema's encoding of that struct, in declaration order at every nesting level: each value in the cast's byte order at its declared width, containers element by element without padding or extra bytes, absent optionals as nothing, lengths and discriminants as implied by the data. Nothing else is emitted, before, between or after the fields.",
 ["inputs","programs"],"every schema and every struct value consistent with it, both byte orders",
 "Tests compare bytes for a few structs per descriptor; in-memory padding, multi-dimensional and nested foreign-order data, narrower widths and combinations of kinds are sampled thinly.",
 [WI,FW,TC,DV],[("per-kind field writers","write_field<...>"),("byte-order conversion through temporaries","write_foreign_scalar, write_foreign_buffer"),("left-to-right fold","stream_cast_impl")])
prop("C05","An inconsistent struct is refused with the right reason and field",
 "stream_cast_le/be never reports success for a struct whose encoding would not mean that struct to a reader: a rejected constraint, an optional whose presence disagrees with its predicate, a held alternative other than the one the computed switch or ladder selects, a length or discriminant its declared width cannot hold, and a union left valueless by an exception (reported at the discriminant that would be derived from it, else at the union) give validation_failure; no matching case or branch gives type_deduction_failure; containers disagreeing with a shared, conditional or computed length give found_contradicting_length (a plain integer is taken to fit its declared width). The error is that of the first offending field in declaration order, failed_at being its id (for lengths shared by containers the length field; for a computed length the container; inside nested records the outermost enclosing field).",
 ["inputs","programs"],"every schema and every inconsistent struct value: each kind of inconsistency, at every position, alone or combined",
 "Each row of the write error table is tested once or twice; interactions (derived plus conditional lengths, several inconsistencies at once, inconsistencies inside unions, optionals and nested records) are not.",
 [FW,TC,DV],[("constraint check before the field","stream_cast_impl"),("length derivation/verification","derive_value, verify_conditional_len"),("presence and alternative verification","write_field<optional_field_like>, write_field<union_field_like>")])
prop("C06","A refused write leaves exactly the fields before the failing one",
 "When stream_cast_le/be refuses a struct, the bytes already emitted are exactly the encodings of the fields before the offending one in declaration order (at every nesting level), and not a single byte of the offending field itself. No write is attempted on the stream after the failure, whether the struct or the stream caused it.",
 ["inputs","programs","fault_sequences"],"every schema, every inconsistent struct, every point at which the stream refuses a write",
 "Tests look at the returned error; only a few look at what had been emitted, and none for every failing position in every kind of field.",
 [TC,FW,DV],[("checks run before a field's first byte","stream_cast_impl, write_field"),("fail-fast fold","operator| in algorithms.hpp")],["bytes handed to the stream"])
prop("C07","What is written reads back as the same struct, and vice versa",
 "For every schema and byte order, if stream_cast succeeds on a struct whose integers fit their declared widths and whose containers are within their ceilings, struct_cast with the same schema and order over those bytes succeeds, consumes all of them and yields an equal struct; and if struct_cast succeeds on a byte string, stream_cast of the result emits the same bytes that were consumed (a boolean as 0 or 1). This holds along any history of reading, modifying through operator[] and writing again.",
 ["inputs","programs","histories"],"every schema, every accepted byte string, every writable struct, every sequence of read-modify-write steps",
 "Round trips are tested on a few fixed structs; agreement of two independently written halves over all schemas, values and edit histories is a universal statement.",
 [FR,FW,RI,WI,DV,SC,TC],[("one schema drives both directions","field descriptors"),("derived fields follow the data","derive_value")])
prop("C08","Lengths and discriminants on the wire always follow the data",
 "Whatever the struct stores in them and however it was built, parsed or modified, a length field sizing a plain container is written as that container's element count and a switch discriminant as the case value of the alternative held. When several containers share a length they must agree, or nothing of the length field is written and found_contradicting_length names it; a derived value its declared width or type cannot represent, or that violates the field's own constraint, is validation_failure at that field; a length whose container is optional or a union alternative is verified while that container is present and free otherwise.",
 ["inputs","programs","histories"],"every schema with length- or discriminant-dependent fields, every history of modifications to the containers and unions, every container size including those around the capacity of the length field",
 "Tests derive a few small lengths; sizes around the limits of each declared width and type, stale slots left by earlier parses, sharing, and combinations of obligations are not exercised.",
 [DV,FW,TC,FM],[("obligations collected over the field list","derive_value"),("conditional verification","verify_conditional_len"),("declared-width test","fits_declared_width")],
 state=[("stored length/discriminant slot","ignored by writes, filled by reads","include/field/field.hpp: field::value")])
prop("C09","Magic and eq-pinned fields are always the pinned value",
 "A fixed-size field constrained to equal one value is written as exactly that value whatever the struct holds, at every nesting level, and such a write is never refused because of that field; a read that meets any other bytes there fails with validation_failure at that field (or its outermost enclosing field), for every single differing byte or bit. An equality pinned on a union alternative or a variable-size field is instead checked against the caller's value in both directions.",
 ["inputs","programs","histories"],"every pinned field of every type (integers of every width, byte arrays, strings), every wrong byte pattern, every struct state",
 "Tests try one wrong magic per kind; acceptance of some other byte pattern (truncated comparison, terminator handling, sign or width conversion) needs the whole input space.",
 [CV,FT,FW,SC,FX,DE],[("value taken from the constraint","frozen_value_of"),("constraint on read","struct_cast_impl"),("string comparison","fixed_string operator==")])
prop("C10","Every constraint is enforced, on its own value, in both directions",
 "No struct returned by a read and no bytes emitted by a successful write contain a value its declared constraint (eq, neq, lt, gt, lte, gte, any_of or a user callable) rejects, wherever the constraint is declared: on a scalar, string, array, container, record, union alternative or whole union, at any nesting level, in any element of a record array or vector. Conversely a value the constraint accepts is never refused because of it: the comparison is between the field's full value and the constraint's, with no truncation, wrap-around or change of sign.",
 ["inputs","programs"],"every constraint kind, constraint literal type and field type, every field position, every value, in both directions",
 "Tests check a few accepting and rejecting values per constraint with matching types; boundary values, differing literal types and every position where a constraint can sit are not enumerated.",
 [CV,SC,TC,FR,FW,FO],[("constraint functors","field_value_constraints.hpp"),("check after read / before write","struct_cast_impl, stream_cast_impl"),("explicit checks for alternatives and optionals","read_variant_impl, write_variant_impl")])
prop("C11","Wire-driven allocation never exceeds the field's ceiling",
 "Reading a vector, string or vector of records never allocates when count times in-memory element size exceeds the field's ceiling (its max_bytes, or the default of 16 MiB / S2S_DEFAULT_MAX_BYTES): it fails with excessive_length at that field before allocating for it or taking any byte of it, for every claimed length including those whose product overflows and negative ones. A length at or below the ceiling, exactly the ceiling included, is never refused with excessive_length; this holds in unions, optionals and nested records, for lengths taken from a field or computed, and writing has no ceiling.",
 ["inputs","programs","configurations"],"every length a stream can claim, every element type, every declared or default ceiling, every position of the container",
 "Tests probe two or three lengths per bound; the exact boundary for every element size, overflowing products, nested and computed lengths, and that nothing at all was allocated need an allocation monitor.",
 [RI,FR,FS,FO,TT],[("division-form gate","checked_byte_count"),("bound resolution","bound_in_bytes, bound_of_pack")],["global operator new","bytes requested from the stream"])
prop("C12","No input makes a cast touch memory it does not own or invoke UB",
 "For every byte stream, however truncated, corrupt or hostile, struct_cast_le/be performs no out-of-bounds or use-after-free access, no read of uninitialised data, no undefined operation and leaks nothing, and neither does writing any struct the API lets a caller build, whatever the outcome. Inspecting, copying, moving and destroying the result is equally safe.",
 ["inputs","programs"],"every schema, every byte stream, every struct value",
 "Unit tests run without sanitizers on well-formed data; memory safety on arbitrary bytes is a property of all inputs.",
 [RI,WI,AM,FR,FW,FX,DV],[("sizes bounded before reading","checked_byte_count, deduce_field_size"),("value-initialised fields","field::value"),("no in-place mutation of the source","write_foreign_scalar")],["AddressSanitizer, UBSan, LeakSanitizer, valgrind memcheck reports"])
prop("C13","A stream or allocator that fails is reported cleanly at any point",
 "If the stream refuses a read or write at any operation, the cast returns buffer_exhaustion at the field being transferred, having transferred every earlier field in full and performing no operation afterwards; it never reports success. If the stream or the allocator throws instead, the exception reaches the caller unchanged, nothing is leaked and neither the source struct nor any other state is corrupted.",
 ["fault_sequences","inputs","programs"],"every operation index at which a stream can fail or throw, every allocation that can fail, every schema, both directions",
 "Tests use a full or short buffer in a few places; failure at every operation of every schema, throwing streams and failing allocations are not tested at all.",
 [RI,WI,SC,TC,FR,FW],[("checked stream state after each transfer","read_native_impl, write_native_impl"),("RAII everywhere","std containers")],["instrumented streams and operator new"])
prop("C14","The outcome does not depend on the kind of stream or on constant evaluation",
 "For the same schema, byte order and bytes (or struct), every stream that meets the documented requirements gives the same outcome: standard file and string streams, a custom stream offering only read/write and operator bool, and a constexpr stream, at run time or during constant evaluation. Same success or failure reason and failed_at, same values, same emitted bytes.",
 ["inputs","programs","configurations"],"every schema, input and stream kind",
 "The compile-time test tier is separate hand-written tests (not even built in this environment); equality of outcomes across stream kinds on arbitrary input is never compared.",
 [RI,WI,AM,ST,BO],[("two implementations of the transfer primitives","read_native_impl / write_native_impl overloads"),("element-wise constexpr path","read_native, write_native")])
prop("C15","An optional field is present exactly when its predicate says so",
 "On a read, an optional field is engaged, and its bytes consumed, if and only if its predicate holds for the values of the fields it names as they appear on the wire; otherwise it is empty and consumes nothing. On a write, the struct's optional must be engaged if and only if the predicate holds for the values being written (derived and pinned fields at their written value), otherwise validation_failure names it; its bytes are then emitted or omitted accordingly.",
 ["inputs","programs","histories"],"every predicate over earlier fields, every kind of optional payload, every stream and struct",
 "Tests cover two or three predicates over plain integers; predicates over lengths, discriminants, pinned fields, containers or several fields, and payloads of every kind, are not.",
 [FR,FW,CO,FD],[("predicate evaluation","compute_impl"),("presence verification on write","write_field<optional_field_like>")])
prop("C16","A union always holds the alternative its selector picks",
 "On a read, a union holds the alternative of the case whose value equals the discriminant (or the computed expression), or of the first branch whose predicate holds, decoded per that alternative's own type, size, ceiling and constraint; when none matches the read fails with type_deduction_failure without taking a byte. On a write, the alternative held is what is emitted, and it is accepted only if a reader of the emitted bytes would select it.",
 ["inputs","programs"],"every selector value, every case and branch list including overlapping predicates, every kind of alternative",
 "Tests use two to four cases and a few selector values; all selector values, overlapping branches, negative or wide case values and every alternative kind are not covered.",
 [SW,LA,TI,FR,FW,DV,TT],[("switch and ladder evaluation","evaluate_switch, evaluate_ladder"),("alternative options on its tag","to_field_choices"),("verification on write","write_field<union_field_like>")])
prop("C17","A write does not modify its source and allocates nothing",
 "stream_cast_le/be leaves the source struct bit-for-bit unchanged, whatever the outcome and byte order, and performs no heap allocation of its own. Writing the same struct again, in any order of byte orders and outcomes, emits the same bytes.",
 ["inputs","programs","histories"],"every schema, struct and sequence of casts on one struct",
 "Tests compare output bytes once; an in-place byte swap, a mutated slot or a staging buffer is invisible to them.",
 [WI,FW,TC,DV],[("swaps land in temporaries","write_foreign_scalar"),("values bound by reference","write_field")],["global operator new","snapshot of the source object"])
prop("C18","Concurrent casts are independent and free of data races",
 "Casts on different streams may run concurrently from any number of threads, including several threads writing the same const struct to their own streams and casts of the same schema, without data races, and each has exactly the outcome it has when run alone. No cast depends on earlier casts: repeating one after any history of other casts gives the same outcome, and a cast made from inside a stream's own read or write leaves the cast in progress as it would be alone.",
 ["schedules","histories","programs"],"every interleaving of concurrent casts, every history of earlier casts",
 "All tests are single-threaded and each cast is run once.",
 [SC,TC,FR,FW,DV],[("no mutable static state","whole library"),("const source","stream_cast")],["ThreadSanitizer reports, per-thread outcomes"])
prop("C19","Byte order affects nothing but the order of bytes within integers",
 "For every schema, the big-endian encoding of a struct is its little-endian encoding with the bytes of each integer (at its declared width) reversed in place and everything else - single bytes, strings, layout, lengths, order of fields - identical; reading mirrors this. Success, failure reason, failed_at and bytes consumed are the same in both orders for corresponding inputs, and the order chosen applies to every nested record, element, alternative and length alike.",
 ["inputs","programs"],"every schema, struct and pair of corresponding byte strings",
 "Tests run few schemas in both orders, and never relate the two.",
 [BO,RI,WI,FR,FW],[("host/foreign dispatch","deduce_byte_order, read_impl, write_impl"),("element swapping","byteswap_elements")])
prop("C20","Equivalent spellings of a schema behave identically",
 "The options of a field or alternative (size, constraint, ceiling) mean the same in any order; an omitted size means the type's full width, an omitted constraint accepts everything and an omitted ceiling is the default; a magic descriptor means the plain descriptor constrained by eq, and a record's fields mean the same wherever the record is nested. Two schemas differing only so read and write every input with the same outcome.",
 ["programs","inputs"],"all orders and omissions of options on every descriptor and type tag, every input",
 "Tests spell each option pack one way; the equivalence of spellings over inputs is not compared.",
 [FO,DE,TT,FD],[("order-independent pack scan","size_in_pack, constraint_in_pack, bound_in_pack")])
prop("C21","The accessor exposes each field as the write path treats it",
 "Through operator[], a length field derived from a container is not accessible at all, on const and mutable structs alike; a switch discriminant and an eq-pinned fixed-size field are readable but not assignable; every other field, including lengths of optional or alternative containers and fields feeding computed lengths, predicates and ladders, is assignable, and an assigned value is exactly what a later read of it and a write of the struct see. Each name reaches its own field and no other.",
 ["programs","histories"],"every schema and every field role, alone and combined",
 "must_not_compile tests cover a few roles; every combination of roles across schemas is not examined.",
 [FL,FM,DV],[("constrained operator[] overloads","struct_field_list_impl"),("derived-field lists","field_list_metadata")])
prop("C22","The shipped single header behaves as the modular headers do",
 "A program built against single_header/s2s.hpp, or against a single header freshly generated from include/, has exactly the behaviour of the same program built against include/s2s.hpp: the same outcomes, values and bytes for every schema and input, including programs that include it in several translation units and that set S2S_DEFAULT_MAX_BYTES.",
 ["programs","inputs","configurations"],"every program and input",
 "One round-trip test includes the shipped header; behavioural equality with the modular headers is not compared.",
 ["scripts/amalgam.py","single_header/s2s.hpp","include/s2s.hpp"],[("amalgamation","scripts/amalgam.py")])
prop("C23","Ill-formed schemas are rejected at compile time",
 "A program that uses a schema with exactly one of these faults, at any nesting level, does not compile, while the same schema without it does: two fields with the same id; a length (plain or computed), presence, discriminant, computed type or ladder branch that names a later field, the field itself, a field of the enclosing record or no field at all; two alternatives of a union with the same type, two cases with the same value, a union with no alternatives; a size wider than the field's type, a container with no size or a fixed one; an option that does not apply to its descriptor or alternative, or two options of one kind; a presence computation that does not yield bool; naming through operator[] an id the schema does not have.",
 ["programs"],"every well-formed schema and every single fault in it",
 "must_not_compile tests a handful of programs, most of them about one option pack; each fault in each kind of field, position and nesting level is not examined.",
 [SFL,FM,DE,FO],[("concepts on struct_field_list and descriptors","struct_field_list.hpp, field_descriptors.hpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
assert all(len(p['title'])<=80 for p in P), [p['title'] for p in P if len(p['title'])>80]
print(len(P))
