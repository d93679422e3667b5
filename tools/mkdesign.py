import json,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
how={
'C01':("Invariant preservation: every public screen operation from every shape that satisfies the geometry invariant (cursor, scroll region, row tables, row sizes, tab table, active table) is interpreted with arbitrary arguments and the invariant is proved on every end state.","bounded shapes"),
'C02':("The interpreter's own access obligations for cells, rows, row table and tab table on every path of every screen operation, with selections and scrolled-back views; also `uninit`/`undef`.","bounded shapes, plus tall shapes around the 128-row recursion limit of scrolling and long rows"),
'C03':("Induction over input steps: from each of the 14 parser states, every class of character, arbitrary parameter list (count 0..16, values -1..655359), OSC text length, palette pointer and character-set pointers; every access inside its object and the facts assumed re-established.","none; screen API is the boundary (C02)"),
'C04':("14 states x the whole code point range partitioned exactly; successor state, action class and effect on the collected sequence against the VT500 table.","none"),
'C05':("The decoder on up to four abstract bytes partitioned by the classes of Unicode's table 3-7, from every rest state; outcome and value bit by bit; wiring into `tsm_vte_input` (one feed per byte, a character exactly on accept/reject, 7/8-bit modes).","none"),
'C06':("The encoder on every class of 32-bit values into a 4-byte buffer: length and every bit against the definition, stores beyond the encoded bytes are violations; the string builder (`tsm_ucs4_to_utf8_alloc`) and OSC text collection likewise.","builder: up to three characters"),
'C07':("`parse_cnt` unchanged by every public call and parser step on every path; echo only outside parsing and exactly the output bytes; replies never echoed.","none"),
'C08':("The prefix request is clear after every public call / parser step / nested parse entered with it clear; keyboard output has exactly one extra ESC with Alt and none without.","none"),
'C09':("From every parser state with arbitrary parameters, modes and cursor, all write-callback calls (content, length, numbers formatted) against the request table; any other input writes nothing.","parameter lists of 0..2 entries (longer ones do not reach the report code)"),
'C10':("The keyboard handler with arbitrary key symbol, ASCII value, modifiers, Unicode value and modes; concatenated output bytes and result on every path against `keyspec.py`.","none"),
'C11':("Set/reset sequences with an arbitrary parameter in every position, all pairs of modes; mode bits, saved cursor, screen calls and all other settings against `modes.py`; mirrored screen flags agree after every step and public call.","quick: a subset of the 16 list positions; thorough: all"),
'C12':("All codes in every position, all pairs, all 256 indexed colours, direct colours with arbitrary components, truncated and malformed lists against the SGR table.","none"),
'C13':("Field by field: values after `tsm_vte_new` are computed abstractly and every field that is not API configuration must have that value after a reset from an arbitrary state, whatever escape sequence or call triggers it; `tsm_screen_reset` likewise on shapes.","screen part: bounded shapes.  Contents of the alternate screen are not part of the property"),
'C14':("Ownership typestate of rows: no access to or second release of a released row (`uaf`, `free`), no field of the screen refers to a released row in any end state, rows in use are kept, dropped rows are released with their cells.","bounded shapes"),
'C15':("(a) 19 histories of create/ref/use/unref from an empty heap through the real constructors with each call's allocations failing in turn, with a count model; (b) releases of arbitrary screens and terminals with arbitrary counts; (c) every screen operation with failing allocations: live allocations = what the screen owns.","histories are a fixed list; symbol table entries are behind the hash table contract"),
'C16':("Every allocation of every allocating operation forks into success and failure; on failing paths the result is negative, nothing missing is dereferenced, all invariants (geometry, lists, row ownership) hold and nothing is lost; the same for selection copying.","bounded shapes"),
'C17':("Every pointer argument of every public function missing in turn: nothing read, written, allocated or called back, result negative or neutral; every parser step and call on a terminal without optional callbacks invokes none.","none (documented optional pointers are listed in `c17.OPTIONAL`)"),
'C18':("Declarations (clang syntax tree), definitions and visibility (IR compiled with hidden default), version script entries compared both ways; prototypes agree; constants kept twice agree; compile witnesses of the header alone in C and C++.","none.  Note: the build never applies the version script because CMake tests `CMAKE_CXX_COMPILER_ID` in a C-only project"),
'C19':("For every operation and every cell on display, shown content before and after is compared in the abstract end state: a cell that may differ carries an age above the old counter (cell, row, screen age or forced redraw); drawing hands out the right age.","bounded shapes"),
'C20':("Getters store nothing on any path; `tsm_screen_draw` stores only the redraw request and hands each visible cell out exactly once in order with content, width, attribute, highlight and a distinguishing id.","bounded shapes"),
'C21':("`tsm_screen_selection_copy` with the real encoder: every access inside its row or buffer, terminator at the returned length, none before, text equal to the selected cells in reading order.","bounded shapes; one cell arbitrary at a time"),
'C22':("Tables read from the sources and compared entry by entry; designations, locking and single shifts and the mapping of printed characters from an arbitrary terminal; the width function on an arbitrary 32-bit value against Unicode data.","none"),
'C23':("Palette selection for every documented name, unknown names and custom palettes; for every colour code with and without bold the colours handed to the screen are the entries of the palette in use.","unknown names: 20 samples"),
'C24':("Append histories on a new symbol table with arbitrary code points and symbols; the hash table is replaced by its contract using the table's own hash and comparison functions, whose code is interpreted.","histories up to the maximum sequence length"),
'C25':("The history list is walked in every end state: links, ends, counter, limit, ids, order, which rows were added or dropped.","bounded shapes (0..6 rows)"),
'C26':("Ring: every operation on an arbitrary ring of every power-of-two size; the byte at an *arbitrary index* of the queue afterwards is traced back through the recorded copies to the byte it must be (linear arithmetic, one case split per copy).  Dispatch: all results of `read`/`writev`, the pieces passed are the queue in order, exactly the accepted bytes leave it, every block read is delivered once before the buffer is reused, unfinished work is reported / re-armed.  Open/close/ref/unref/bridge: descriptor and heap typestate on every path.","lengths below 2^47, ring sizes to 2^40; callbacks return, close, or queue up to 100 bytes; the one-byte handshake is interrupted at most twice in a row"),
'C27':("Per erase operation and per cell against the definition with undetermined protect bits.","bounded shapes"),
'C28':("Every operation that starts on the alternate screen (and every switch): each row and cell of the hidden screen and the history is compared before/after.","bounded shapes"),
'C29':("The mouse handler with arbitrary tracking state, coordinates, button, modifiers; report bytes, routing, de-duplication, subscriber calls against the protocol table.","none"),
'C30':("Per erase operation, each cell against the area it is defined to clear.","bounded shapes"),
'C31':("Every motion for every cursor/margin combination of the shapes and every class of count (0, 1, 2, 3, larger up to 2^32-1).","bounded shapes"),
'C32':("From every dispatching state, every final character on abstract parameters: screen calls with argument values and the set of settings changed against the documented table.","none"),
'C33':("Row table after every scroll/insert/delete is the permutation the model gives, row by row and cell by cell; pushed rows reach the history in order; no shared storage.","bounded shapes incl. 131-row screens"),
'C34':("Each end of a selection is followed as a row identity through every operation; starting/extending choose the cell under the pointer; drawing highlights exactly the cells between the ends.","bounded shapes"),
'C35':("The write operation against the model (cells, covered halves, insertion, wrap, cursor); printing from an arbitrary terminal writes the code point once with exactly the current attributes; symbolic texts of mixed encoded lengths, whole and split at every byte, arrive once and in order through the real decoder.  Reading back: C20, C21.","bounded shapes; texts up to six characters; zero-width characters are dropped by design"),
'C36':("Reported position = index of the row the view starts at, after every operation; the scrolling calls move by the requested distance or to the end; new output keeps the line shown.","bounded shapes"),
'C38':("`tsm_screen_resize` on every pair of sizes of the grid, with scroll regions, hidden rows and columns, either screen in use and a history with or without room: every cell of both row tables afterwards is the one that was there or a blank, rows that left are in the history in order, cursor, region and tab stops have the defined values.","sizes up to 3x3 (5x5 thorough, thinned), tab stops to 17 columns"),
'C39':("Every field of the screen object, every cell and every tab stop before/after each settings call with arbitrary arguments: the named state has the defined value, nothing else differs; every getter's result is the field it names.","bounded shapes (the calls loop over tab stops and history rows only)"),
'C40':("Round trip: ESC 7 from an arbitrary terminal, then every field the save does not own is replaced by a fresh arbitrary value, then ESC 8; attributes, GL/GR, autowrap, origin mode and the absolute position (the sequence of screen calls is evaluated with the origin flag) must provably equal the values before the save. Every input character in every parser state leaves the saved values alone. ESC 8 on the abstract state after tsm_vte_new().","none for the values; colours on five (thorough: 64) pairs of palette codes"),
'C37':("Every operation of the table is interpreted on every enumerated table shape that satisfies the representation invariant (an entry decodes to its element, its tag matches its hash, it is not mistaken for an empty or deleted slot, no empty slot separates it from its bucket, the counters hold), with symbolic hash bits and shared address bits and both outcomes of every tag comparison between different elements; results, callbacks and the invariant afterwards are compared with the definition. The invariant is inductive, so histories of any length are covered within the sizes.","2, 4 and 8 slots (doubling to 16), up to 3 elements (4 thorough), addresses that differ in four positions; shapes of 8 slots are sampled"),
'C45':("tsm_vte_input() is interpreted on 0 to 3 arbitrary bytes from an arbitrary terminal, with a decoder that gives any answer to each byte and a parser whose every character may switch the mode; decoder calls and characters are compared with byte-by-byte processing, every field of the terminal must be untouched between them.","inputs of up to 3 bytes (5 thorough)"),
'C44':("Both sides of the fork in shl_pty_open() are interpreted with stand-ins for every system call, each of which may also fail; signal set, attributes, window size and handshake byte are compared at the moment of the call and the calls of every path with the steps and order the definition demands.","every failing call, two interruptions per transfer, all window sizes, attribute bytes and signal numbers"),
'C43':("Each cell of every abstract end state of the two character operations and of writing a symbol is compared with the cell, blank or written symbol the definition puts there, on screens with symbolic cells, counts, symbols, attributes and mode bits; cursor, all other rows, history, tab stops and settings are compared as well.","widths 1-5 and 300, every cursor column including the pending wrap; counts over the full 32 bits"),
'C42':("One character is interpreted from every parser state. In the string state the text collected so far has every length that fits and arbitrary (symbolic) bytes: the bytes appended are compared bit by bit with the UTF-8 form of the character (length and dropping at the buffer's end included), and at each way of ending the string the callback is hooked and the memory it is handed compared, byte by byte and with its terminator, with the text. Calls of the subscriber are counted on every path; that the unused rest of the buffer is zero is used only after starting and collecting have been shown to keep it so.","every text length 0..127 (multi-byte classes: 14 lengths in the quick tier), all character classes, all states"),
'C41':("The abstract end states of `tsm_screen_new` and `tsm_vte_new` compared with a table of the power-up state: every cell of both 80x24 buffers, every tab stop, mode bit, attribute and character-set entry; the calls the terminal makes on an arbitrary screen are evaluated to what they amount to.","none"),
}
out=open(V+'/tools/design_head.md').read()
out+="| id | property | how it is decided, against what | bounds |\n|---|---|---|---|\n"
for p in props:
    i=p['id']
    h,b=how[i]
    out+="| %s | %s | %s | %s |\n"%(i,p['title'],h,b)
out+="""
Why tests cannot reach these: each statement quantifies over all inputs, states, histories or faults; the abstract start states above stand
for all of them (or all inside a shape), including the ones no test constructs (pending wrap at a margin, an eviction during a selection,
the second allocation of a resize failing, a write that ends at the wrap of the queue).

Cost: all quick checks together take about 7 minutes on 8 cores (the longest, C11, C12, C15, about a minute each).

## 3. Defects of libtsm found and repaired

Each is one `fix:` commit in `/repo`; the list in `known_findings.json` ("fixed") is the same.  A fixed entry suppresses nothing.

"""
k=json.load(open(V+'/known_findings.json'))
for f in k['fixed']:
    w=f.split(' ',3); out+="* %s `%s`: %s\n"%(w[1].replace('property=',''),w[2],w[3])
out+="""
## 4. Known findings (recorded, not repaired)

The national replacement character sets are not implemented: designating one selects the upper half of Latin-1 (`TODO: create ... charset` in the
sources).  Implementing eleven tables is a feature, not a small repair.  One entry per set in `known_findings.json`, keyed by set *and*
by what it selects instead, so any other wrong table is still reported:

"""
for f in k['findings']: out+="* %s `%s`\n"%(f['property'],f['key'])
out+="""
Observed, outside the statements above: KP_Equal sends no sequence of its own; `CSI > ... m` is treated as SGR; DECSCA is not implemented;
`tsm_symbol_get(NULL, composed symbol)` leaves `*size` unset (internal only); composed symbols are left out
of copied text (a TODO in the sources); a cursor position report while a wrap is pending reports column size+1.

## 5. Planted bugs and what catches them

`/verif/seeded/*`; each compiles, passes the 42 tests, has a demonstration and was confirmed to be reported by the check of its property.

| planted bug | property / check | needs | breaks |
|---|---|---|---|
"""
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%d)); out+="| %s | %s | %s | %s |\n"%(d,m['property'],m['needs'],m['what_it_breaks'])
out+=open(V+'/tools/design_tail.md').read() if os.path.exists(V+'/tools/design_tail.md') else ''
open(V+'/DESIGN.md','w').write(out)
