#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook="verif_hook (cfg apint_verif): build an integer from width and digits, read its digits"):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["return value", "width and digits of every operand after the call"],
                     hook_needed=hook)))
A='src/apint/'
p("C01","Constructors give exactly the requested width and value",
 "An integer built from a primitive has that primitive's width and bit pattern, one built from an array of 64-bit words has 64 bits per word with the first word the most significant, and the zero, one, all-set, all-unset and signed/unsigned minimum/maximum constructors give, for every width, exactly the value their name says. No bit beyond the width is ever set.",
 ["inputs","configurations"],"every primitive value, every word array of the supported lengths, every width",
 "Tests try a handful of values per primitive and a dozen widths; constants at widths just around word boundaries are sampled, never all of them.",
 [A+"constructors.rs","src/uint.rs","src/int.rs"],
 [("from_* / From impls","src/apint/constructors.rs"),("repeat_digit / from_iter","src/apint/constructors.rs"),("set_msb / unset_msb","src/apint/bitwise.rs")])
p("C02","Every operation leaves its result in canonical form",
 "Whatever public operation produced or changed an integer, its value is below two to the power of its width: no stored bit beyond the width is set, so two integers of equal width and equal value are equal, hash alike and behave alike in every later operation, no matter how they were produced. This includes integers whose operation reported an error.",
 ["inputs","histories","configurations"],"every operation applied to every canonical state of every width (one inductive step, hence every history)",
 "The invariant must be re-established by each of ~60 mutating operations at every width not a multiple of 64; tests compare a few results and never look at the unused bits.",
 [A+"utils.rs",A+"arithmetic.rs",A+"bitwise.rs",A+"shift.rs",A+"casting.rs",A+"rand_impl.rs"],
 [("clear_unused_bits","src/apint/utils.rs"),("truncate_to","src/digit.rs")])
p("C03","Addition, subtraction, negation, increment, decrement are exact modulo 2^w",
 "For two integers of the same width w, wrapping addition and subtraction, and for one integer negation, increment and decrement, give the mathematical result modulo 2^w, with the width unchanged, and do not change the right operand. The in-place and the consuming form give the same result.",
 ["inputs","configurations"],"every width and every pair of operands",
 "Carry and borrow chains fail only for rare digit patterns (all-ones digits in the middle, carry into a partial top digit) that random or hand-picked operands do not hit.",
 [A+"arithmetic.rs","src/digit.rs","src/uint.rs","src/int.rs"],
 [("wrapping_add_assign / wrapping_sub_assign / wrapping_neg / wrapping_inc / wrapping_dec","src/apint/arithmetic.rs"),("carrying_add / borrowing_sub","src/digit.rs")])
p("C04","Multiplication is exact modulo 2^w",
 "For two integers of the same width w, wrapping multiplication gives the mathematical product modulo 2^w, with the width unchanged and the right operand untouched. The in-place and the consuming form give the same result.",
 ["inputs","configurations"],"every width and every pair of operands",
 "The implementation chooses among several special cases by leading zeros of the operands; a lost carry in one of them needs operands that random testing practically never produces.",
 [A+"arithmetic.rs","src/digit.rs"],
 [("wrapping_mul_assign","src/apint/arithmetic.rs"),("carrying_mul / carrying_mul_add","src/digit.rs")])
p("C05","Unsigned division gives the unique quotient and remainder",
 "For every dividend and every non-zero divisor of the same width, unsigned division and remainder give the q and r with dividend = q*divisor + r and r < divisor. All division entry points (quotient only, remainder only, both, in place or consuming) give that same q and r and keep the width.",
 ["inputs","configurations"],"every width, every dividend, every non-zero divisor",
 "Multi-word long division has correction steps and special cases that are reached by a vanishing fraction of operands.",
 [A+"arithmetic.rs"],
 [("aarons_algorithm_divrem / aarons_algorithm_remdiv","src/apint/arithmetic.rs"),("wrapping_udivrem_assign and the other entry points","src/apint/arithmetic.rs")])
p("C06","Signed division truncates towards zero with the dividend's sign on the rest",
 "For every dividend and every non-zero divisor of the same width read in two's complement, signed division gives the quotient truncated towards zero and the remainder that is zero or has the dividend's sign, such that dividend = q*divisor + r modulo 2^w; the minimum value divided by minus one wraps to the minimum value with remainder zero. All entry points agree, keep the width and leave the operand they only read unchanged.",
 ["inputs","configurations"],"every width, every sign combination, every dividend and non-zero divisor",
 "Sign handling by negating operands back and forth breaks only for particular sign and magnitude combinations (minimum value, width one).",
 [A+"arithmetic.rs","src/int.rs"],
 [("wrapping_sdivrem_assign / wrapping_sremdiv_assign / wrapping_sdiv_assign / wrapping_srem_assign","src/apint/arithmetic.rs")])
p("C07","Division by zero and width mismatch in division are reported, not fatal",
 "Every division and remainder operation given a zero divisor returns a division-by-zero error naming the dividend, and given operands of different widths returns a mismatched-width error; it never panics. On such an error the operands a caller still holds have the values they had before the call.",
 ["inputs","configurations"],"every dividend, every pair of widths, every division entry point",
 "There are eight entry points with different signs and shapes; tests check the zero divisor on a few values and no mismatch in the signed ones.",
 [A+"arithmetic.rs","src/errors.rs","src/int.rs","src/uint.rs"],
 [("zero and width checks in each division entry point","src/apint/arithmetic.rs"),("division_by_zero / unmatching_bitwidths","src/errors.rs")])
p("C08","Bitwise not, and, or, xor act on every bit and only on bits inside the width",
 "For operands of the same width, bit i of the result of and, or, xor and not is the respective function of bit i of the operands, for every i below the width; width and right operand are unchanged. The in-place and consuming forms agree.",
 ["inputs","configurations"],"every width and every pair of operands",
 "No unit test covers these operations on more than one word; a wrong last word at one width class stays unseen.",
 [A+"bitwise.rs",A+"utils.rs"],
 [("bitnot / bitand_assign / bitor_assign / bitxor_assign","src/apint/bitwise.rs"),("modify_zipped_digits","src/apint/utils.rs")])
p("C09","Single-bit access reads and changes exactly the addressed bit",
 "Reading, setting, unsetting and flipping the bit at a position below the width concerns exactly that bit, and the most and least significant bit accessors concern bit width-1 and bit 0; every other bit keeps its value. A position at or above the width is refused with an invalid-bit-access error and changes nothing.",
 ["inputs","configurations"],"every width, value and position (valid or not)",
 "Position arithmetic across words has 64 cases per word and an error boundary at every width; the tests check only a few reads of the top bit.",
 [A+"bitwise.rs",A+"utils.rs","src/bitpos.rs","src/checks.rs"],
 [("get_bit_at / set_bit_at / unset_bit_at / flip_bit_at","src/apint/bitwise.rs"),("set_msb / unset_msb / flip_msb / msb / lsb","src/apint/bitwise.rs, src/apint/utils.rs"),("verify_bit_access","src/checks.rs")])
p("C10","Whole-value setters and predicates are exact",
 "Setting, unsetting and flipping all bits change every bit inside the width and none beyond it. The predicates for zero, one, all bits set, all bits unset, even, odd, positive and negative answer true exactly when the value is of that kind, where one is never reported for a signed one-bit integer.",
 ["inputs","configurations"],"every width and value",
 "A predicate that ignores one word is right on almost every sample and wrong only for specific values of wide integers.",
 [A+"bitwise.rs",A+"utils.rs","src/int.rs","src/uint.rs"],
 [("is_all_set / is_all_unset / set_all / unset_all / flip_all","src/apint/bitwise.rs"),("is_zero / is_one / is_even / is_odd","src/apint/utils.rs"),("is_positive / is_negative / is_one","src/int.rs")])
p("C11","Bit counting is exact for every width",
 "The number of ones and zeros, of leading zeros and of trailing zeros reported for an integer are those of its width-bit pattern; leading zeros count from bit width-1, and for the value zero both leading and trailing zeros equal the width.",
 ["inputs","configurations"],"every width and value",
 "Partial top words and all-zero words interact only for specific widths and values; tests use a few constants.",
 [A+"bitwise.rs"],
 [("count_ones / count_zeros / leading_zeros / trailing_zeros","src/apint/bitwise.rs")])
p("C12","Left shift and logical right shift are exact for every amount",
 "For every shift amount s below the width, left shift gives value*2^s modulo 2^w and logical right shift gives the floor of value/2^s, with the width unchanged; in-place, consuming and operator forms agree.",
 ["inputs","configurations"],"every width, value and shift amount below the width",
 "Word-step and bit-step shifts combine into cases (amount a multiple of 64, amount in the last word, partial top word) that tests visit for a few widths only.",
 [A+"shift.rs","src/uint.rs","src/int.rs"],
 [("wrapping_shl_assign / wrapping_lshr_assign","src/apint/shift.rs"),("digit_steps / bit_steps","src/apint/shift.rs")])
p("C13","Arithmetic right shift fills with the sign bit",
 "For every shift amount s below the width, arithmetic right shift gives the floor of the two's complement value divided by 2^s, with the width unchanged; in-place and consuming forms, and the signed integer's right shift, agree.",
 ["inputs","configurations"],"every width, value and shift amount below the width",
 "Sign fill in a partial top word and across skipped words is wrong only for negative values at particular width and amount combinations.",
 [A+"shift.rs","src/int.rs"],
 [("wrapping_ashr_assign","src/apint/shift.rs"),("Int::wrapping_shr_assign","src/int.rs")])
p("C14","Shift amounts at or above the width are refused and change nothing",
 "Every shift by an amount greater than or equal to the width returns an invalid-shift-amount error carrying that amount and the width, never panics, and leaves an integer the caller still holds unchanged; every amount below the width is accepted.",
 ["inputs","configurations"],"every width, value and 64-bit shift amount",
 "The boundary is at a different amount for every width and the accepted/refused decision must be right on both sides of each.",
 [A+"shift.rs","src/checks.rs"],
 [("verify_shift_amount","src/checks.rs"),("is_valid_shift_amount","src/bitwidth.rs")])
p("C15","Truncation keeps the low bits and refuses to grow",
 "Truncating to a width at most the current one gives exactly the low bits of the value with the new width; a larger target width returns a truncation error and leaves an in-place operand unchanged. In-place and consuming forms, on plain, signed and unsigned integers, agree.",
 ["inputs","configurations"],"every value and every pair of source and target width",
 "All casting tests of the repository are ignored stubs; the pairs of widths crossing the inline/heap boundary are not executed at all.",
 [A+"casting.rs","src/int.rs","src/uint.rs"],
 [("truncate / into_truncate","src/apint/casting.rs")])
p("C16","Zero and sign extension preserve the value and refuse to shrink",
 "Extending to a width at least the current one preserves the unsigned value (zero extension) or the two's complement value (sign extension); a smaller target width returns an extension error and leaves an in-place operand unchanged. The signed integer's extension is sign extension and the unsigned one's is zero extension.",
 ["inputs","configurations"],"every value and every pair of source and target width",
 "All casting tests of the repository are ignored stubs; sign extension across partial words and the inline/heap boundary is only reached through other operations.",
 [A+"casting.rs","src/int.rs","src/uint.rs"],
 [("zero_extend / sign_extend and into_ forms","src/apint/casting.rs")])
p("C17","Resizing truncates when shrinking and extends when growing",
 "Resizing to any width never fails: it gives the low bits when the target is narrower and the zero- or sign-extended value when it is wider, with exactly the target width. The signed integer's resize is the sign-extending one and the unsigned one's is the zero-extending one.",
 ["inputs","configurations"],"every value and every pair of source and target width",
 "All resize tests of the repository are ignored stubs.",
 [A+"casting.rs","src/int.rs","src/uint.rs"],
 [("zero_resize / sign_resize and into_ forms","src/apint/casting.rs")])
p("C18","Unsigned comparison is the numeric order",
 "For operands of the same width the unsigned less, less-or-equal, greater and greater-or-equal comparisons, including the unsigned integer's comparison operators and its three-way comparison, answer exactly as the numeric order of the unsigned values. For different widths the checked forms return a mismatched-width error, the operators answer false and the three-way comparison answers none.",
 ["inputs","configurations"],"every pair of widths and values",
 "Word-by-word comparison is wrong only when an earlier word decides differently from a later one; the repository has almost no tests of it.",
 [A+"relational.rs","src/uint.rs"],
 [("checked_ult / checked_ule / checked_ugt / checked_uge","src/apint/relational.rs"),("PartialOrd for UInt","src/uint.rs")])
p("C19","Signed comparison is the two's complement order",
 "For operands of the same width the signed less, less-or-equal, greater and greater-or-equal comparisons, including the signed integer's comparison operators and its three-way comparison, answer exactly as the numeric order of the two's complement values. For different widths the checked forms return a mismatched-width error, the operators answer false and the three-way comparison answers none.",
 ["inputs","configurations"],"every pair of widths and values",
 "The sign of a partial top word and equal-sign pairs differing in low words are specific cases no test enumerates.",
 [A+"relational.rs","src/int.rs"],
 [("checked_slt / checked_sle / checked_sgt / checked_sge","src/apint/relational.rs"),("PartialOrd for Int","src/int.rs")])
p("C20","Equality and hashing see exactly width and value",
 "Two integers are equal exactly when they have the same width and the same value, whether plain, signed or unsigned. Equal integers feed the same data to any hasher, and integers that differ in width or value feed different data.",
 ["inputs","configurations"],"every pair of widths and values, any hasher",
 "An equality that skips a word, or a hash that ignores one, agrees on nearly all random pairs.",
 [A+"relational.rs",A+"utils.rs","src/int.rs","src/uint.rs"],
 [("PartialEq for ApInt","src/apint/relational.rs"),("Hash for ApInt","src/apint/utils.rs")])
p("C21","Lossy conversion to primitives takes the low bits",
 "The infallible conversion to an N-bit primitive gives, when the integer is at least N bits wide, its low N bits; when it is narrower, the zero-extended value for unsigned targets and the sign-extended value for signed targets. The conversion to bool gives the lowest bit.",
 ["inputs","configurations"],"every width and value, every primitive type",
 "Widths between the primitive sizes and wide integers are sampled by few tests; sign extension from odd widths hardly at all.",
 [A+"to_primitive.rs","src/int.rs","src/uint.rs"],
 [("resize_to_*","src/apint/to_primitive.rs")])
p("C22","Checked conversion to primitives succeeds exactly when the value fits",
 "The fallible conversion to an N-bit primitive (one bit for bool) succeeds exactly when no bit at or above position N is set, and then gives the same result as the lossy conversion; otherwise it returns a value-unrepresentable error carrying the value. The integer is never changed.",
 ["inputs","configurations"],"every width and value, every primitive type",
 "A check that overlooks one word of a wide integer reports success on values that do not fit; tests use few wide values.",
 [A+"to_primitive.rs","src/errors.rs"],
 [("try_to_primitive_ty / try_to_*","src/apint/to_primitive.rs")])
p("C23","Assignment and cloning give an equal and independent integer",
 "After cloning, or assigning one integer to another of any width, the target equals the source in width and value, the source is unchanged, and later changes to either do not affect the other. Strict assignment does the same for equal widths and returns a mismatched-width error, changing nothing, for different ones.",
 ["inputs","configurations","histories"],"every pair of widths and values, followed by a mutation or drop of either",
 "Sharing or freeing the wrong buffer shows only for particular pairs of storage sizes and only after a later operation.",
 [A+"casting.rs"],
 [("Clone for ApInt","src/apint/casting.rs"),("assign / strict_assign","src/apint/casting.rs")])
p("C24","Binary operations on different widths report the mismatch and change nothing",
 "Wrapping addition, subtraction, multiplication and bitwise and, or, xor on operands of different widths return a mismatched-width error carrying the left and the right width, never panic, and leave the operands the caller still holds unchanged. Operands of equal width are never refused.",
 ["inputs","configurations"],"every pair of widths and values",
 "The guard must come before any mutation for each of the operations and each pair of storage classes; tests check it for a few pairs.",
 [A+"arithmetic.rs",A+"bitwise.rs",A+"utils.rs","src/errors.rs"],
 [("zip_access_data_mut_self / modify_zipped_digits","src/apint/utils.rs"),("unmatching_bitwidths","src/errors.rs")])
p("C25","Signed and unsigned integers interpret the same bits as their name says",
 "Every operation of the signed and unsigned integer types gives what the plain integer's signed respectively unsigned operation gives on the same bits; the sign function is -1, 0 or 1 according to the two's complement value and the absolute value is its magnitude modulo 2^w. Conversions between plain, signed and unsigned integers keep width and bits.",
 ["inputs","configurations"],"every width, every operand, every forwarded operation",
 "About 150 forwarding methods where one call to the operation of the other signedness, or a swapped operand, is visible only for operands on which the two differ; most have no test.",
 ["src/int.rs","src/uint.rs","src/utils.rs"],
 [("Int methods","src/int.rs"),("UInt methods","src/uint.rs"),("forward_mut_impl / try_forward_bin_mut_impl","src/utils.rs")])
p("C26","Operators compute what the methods compute and panic only where those fail",
 "Each overloaded operator (not, negation, and, or, xor, add, subtract, multiply and their assigning forms; division, remainder and shifts on the signed and unsigned types) gives the result of the wrapping method of the same meaning, and panics exactly when that method returns an error.",
 ["inputs","configurations"],"every width and every pair of operands, every operator impl",
 "About 100 operator impls written by hand or macro; tests exercise few of them and never the failing side.",
 ["src/std_ops.rs","src/int.rs","src/uint.rs","src/apint/arithmetic.rs"],
 [("std::ops impls","src/std_ops.rs, src/int.rs, src/uint.rs, src/apint/arithmetic.rs")])
p("C27","No operation touches foreign memory, frees twice or leaks",
 "In every sequence of public operations, on success and on error, every read and write stays inside memory that is allocated and initialised, every heap buffer is released exactly once with the size it was allocated with, and none remains after its integer is dropped.",
 ["inputs","histories","configurations"],"every operation from every valid state of every width, success and error paths",
 "The library manages raw buffers whose size is recomputed from the width; a mismatch corrupts memory silently and ordinary tests do not run under a memory checker.",
 [A+"mod.rs",A+"constructors.rs",A+"casting.rs",A+"utils.rs"],
 [("ApIntData union, drop_digits","src/apint/mod.rs, src/apint/constructors.rs"),("assign / truncate / extend buffer handling","src/apint/casting.rs"),("as_digit_slice","src/apint/utils.rs")],
 ["allocator calls","every load and store of the compiled code"])
p("C28","Parsing gives the number the text denotes",
 "Parsing a text of valid digits (either letter case, underscores allowed between digits) in a radix from 2 to 36 gives an integer whose unsigned value is the number the text denotes in that radix, most significant digit first. Its width is a multiple of 64.",
 ["inputs","configurations"],"every radix, every valid digit string",
 "The parser has three algorithms selected by radix and works word-wise; tests parse a few short strings.",
 [A+"serialization.rs","src/radix.rs"],
 [("from_str_radix","src/apint/serialization.rs"),("from_bitwise_digits / from_inexact_bitwise_digits / from_radix_digits","src/apint/serialization.rs"),("get_radix_base","src/radix.rs")])
p("C29","Parsing refuses every malformed text with an error",
 "Parsing a text that is empty, starts or ends with an underscore, or contains a character that is not a digit of the radix returns an invalid-string-representation error, for an invalid character with its position and value, and never panics; every other text is accepted.",
 ["inputs","configurations"],"every radix, every byte sequence that is a valid string",
 "Acceptance must be right for each of 256 byte values in each of 35 radices at every position.",
 [A+"serialization.rs","src/radix.rs","src/errors.rs"],
 [("from_str_radix validation","src/apint/serialization.rs"),("is_valid_byte","src/radix.rs")])
p("C30","Binary and hexadecimal output is the exact value without leading zeros",
 "The binary, lower-case and upper-case hexadecimal output of an integer is the shortest digit string of its unsigned value in that base, and a single zero digit for the value zero.",
 ["inputs","configurations"],"every width and value",
 "Inner words with leading zeros, and zero top words, are specific value shapes; tests format a few constants.",
 [A+"serialization.rs","src/digit.rs"],
 [("Binary / LowerHex / UpperHex for ApInt","src/apint/serialization.rs"),("Binary / LowerHex / UpperHex for Digit","src/digit.rs")])
p("C31","Serialization round-trips",
 "Serializing an integer, in the human-readable or the compact form, and deserializing the result gives an integer of the same width and value.",
 ["inputs","configurations"],"every width and value, both forms",
 "Tests round-trip a few values at a few widths.",
 [A+"serde_impl.rs"],
 [("Serialize / Deserialize for ApInt, BitWidth","src/apint/serde_impl.rs")])
p("C32","Deserialization refuses malformed data and never builds an invalid integer",
 "Deserializing any data either returns an error or gives an integer in canonical form with the width and low bits the data states; it never panics. Missing, repeated or extra-short parts, a zero width, or a number of words that does not match the width are errors.",
 ["inputs","fault_sequences"],"every width number, every word sequence up to a bound, every order, omission or repetition of the parts, and an error injected at any point",
 "The data comes from outside; tests feed only what the serializer produced.",
 [A+"serde_impl.rs"],
 [("HumanReadableApIntVisitor / CompactApIntVisitor","src/apint/serde_impl.rs")])
p("C33","Random integers use the generator's words and stay inside the width",
 "For any random number generator, creating or randomizing an integer of width w draws one 64-bit word per word of the integer, gives exactly those words with the bits beyond the width cleared, and for randomizing keeps the width.",
 ["inputs","configurations"],"every generator output and every width",
 "Tests use one seeded generator, whose bits beyond the width at the few widths tested are one sample.",
 [A+"rand_impl.rs","src/int.rs","src/uint.rs"],
 [("random_with_width_using / randomize_using","src/apint/rand_impl.rs")])
p("C34","Width, position, shift-amount and radix types accept exactly the valid numbers",
 "A bit width can be made from every number except zero, a radix exactly from 2 to 36, a bit position and a shift amount from every number; the invalid ones are refused with the matching error carrying the number, and a valid one gives back the number it was made from.",
 ["inputs"],"every 64-bit number, every 8-bit radix",
 "Two boundaries per type; tests check a few values.",
 ["src/bitwidth.rs","src/bitpos.rs","src/radix.rs",A+"shift.rs"],
 [("BitWidth::new / Radix::new / BitPos::new","src/bitwidth.rs, src/radix.rs, src/bitpos.rs")],
 None, None)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
