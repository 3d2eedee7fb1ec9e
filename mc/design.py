# What decides each property, for DESIGN.md
_DST = "a model destination (the list of units written so far, the capacity or fault schedule) stepped in parallel; state compared after every operation, and the final contents, count, flags and memory around the buffer at the end"
_PRN = "the expected text is built from the documented layout rules; it is compared with what is printed into exact, one-short and tiny buffers, and the premeasured size and width (with several limits) with the model's"
ORACLE = dict(
    C01="`utfmodel.hpp`: decodes a word into code points and ill-formed subparts straight from Table 3-7 (a list of allowed byte ranges), then encodes them; compared: output, stop reason, source position, every notifier call (position, length, encoding name), no access outside the ranges (guard pages)",
    C02="the same model, cut at the capacity; the resumed outputs are concatenated and compared with the uninterrupted one; `transcode_size` against `transcode`",
    C03="the checked function (itself decided by C01 and C02) and the model",
    C04="`data/sbtables.hpp`: CPython's codec tables for the 29 charsets; the transcoding checks of C01 and C02 reused over them (`transcheck.hpp`)",
    C05="the code point lists of C01/C04's models; fills through `chunkdst.hpp` destinations that record every recycle and how much room was left when it was requested",
    C06="decode to code points and encode by the models, cut where the destination ends; stale position mapped to a code point index and compared",
    C07=_DST, C08=_DST + "; allocations counted and failed by a replaced `operator new`", C09=_DST + "; the streambuf is a recording one with programmable acceptance and exceptions", C10=_DST + "; files are `fopencookie` streams and sealed memfds",
    C12="run-length models: the expected output is a list of (unit string, count), compared by a streaming destination that stores nothing; widths in 64-bit integers, clamped at the end",
    C13="`intmodel.hpp`: repeated division on 128-bit integers, layout rules; " + _PRN,
    C14="`std::to_chars` (shortest) gives digits and exponent; the layout rules of the documentation place them; `std::from_chars` reads back",
    C15="`floatmodel.hpp`: decimal strings rounded half-even as strings; exact binary for hexadecimal; " + _PRN,
    C16="groups computed digit by digit on strings; " + _PRN,
    C17="`any.hpp`: text of the unaligned value (model), width by `widthmodel.hpp`, fill count in exact 1/65536 arithmetic",
    C18="`widthmodel.hpp`: UAX #29 rules over property tables generated from Python's unicodedata and the ranges in strf's documentation; the definition, not the state machine",
    C19="128-bit integer arithmetic on the raw 16.16 value",
    C20="`any.hpp` and a direct parser of the documented syntax; notifier calls compared in number, order, string and position",
    C21="each facet is tagged; a model of the lookup (a list of (filter, tag) pairs, last match) names the tag that must act; printables print which facet reached them",
    C22="a printer-independent tree is built along with the printables; its text is the concatenation",
    C23="the documented texts; " + _PRN,
    C24="all configurations against each other: the catalogue is compiled into one shared library per configuration, each record (label, units, size, width, flags, error reports) is hashed and compared with the first configuration's; on a difference the record is shown. What the records should be is decided by the other properties",
    C25="`localeconv` and `nl_langinfo` replaced by stand-ins returning enumerated contents, models as in C01/C04/C16; the installed locales against `printf`'s `'` flag",
    C11="a clock that ticks at every call of user code and every allocation and throws at the chosen tick; the text of an undisturbed print into one large buffer; live allocations counted",
    C27="the text printed into one large buffer (what it should be is decided by the other properties), and the room each write had",
    C31="a record (creator, policy, space, letter case, separator) to which each operation's documented effect is applied; creators and destinations log what is asked of them",
    C30="the documented equations in 64-bit integers; a table of the width of each argument; a counter in the user-defined type's make_printer",
    C29="a record of options to which each call's documented effect is applied; the observers are compared with it, and the text with the integer and floating-point reference models, or spelled out",
    C28="the text of each kind, form, facet and length is spelled out by a function; every value and printer carries a liveness mark and its own address, which make_printer and the printer check; printers are counted",
    C32="what each task prints alone (what that should be is decided by the other properties); the schedule is replayed from its two numbers",
    C26="decode, cut by `widthmodel.hpp`, re-encode by the models of C01/C04, align",
)
COST = dict(C01="quick 10 s", C02="quick 25 s", C03="quick 10 s", C04="quick 50 s", C05="quick 50 s", C06="quick 20 s", C07="quick 10 s", C08="quick 20 s", C09="quick 10 s", C10="quick 5 s, thorough 5 min",
            C12="quick 60 s, thorough 24 min", C13="quick 45 s, thorough 40 min", C14="quick 45 s, thorough about 1 h", C15="quick 45 s", C16="quick 75 s", C17="quick 60 s", C18="quick 25 s", C19="quick 20 s", C20="quick 15 s", C21="quick 85 s", C22="quick 60 s",
            C23="quick 30 s", C24="quick 125 s (almost all of it compiling), thorough 160 s", C25="quick 30 s", C26="quick 50 s", C11="quick 60 s", C27="quick 60 s", C28="quick 150 s (almost all of it compiling)", C29="quick 80 s", C30="quick 90 s", C31="quick 60 s, thorough 5 min", C32="quick 40 s, thorough 25 min")
