import json
R="src/rom/mod.rs"; M="src/midi/mod.rs"; N="src/nspc/mod.rs"; T="src/nspc/track.rs"; C="src/nspc/command.rs"; S="src/nspc/seqtree.rs"; L="src/lib.rs"; MA="src/manifest/mod.rs"; MAIN="src/main.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A reported success means the complete result is on disk",
 "When a command that writes a ROM, a JSON song or a dummy ROM reports success, its output file holds the complete and correct result of that command and nothing else: no missing tail, no stale tail from an older file, no bank left half-updated. This holds whatever short, interrupted, refused or failing system calls the command met on the way.",
 ["fault_sequences","inputs","configurations"],"all inputs and pre-existing output files, and all sequences of short reads/writes, EINTR, EIO, ENOSPC, EMFILE... on any system call of the run",
 "The three integration tests only call unwrap() on one fault-free run each and never look at the file; no test meets a short write, an interrupted call or an older, longer output file.",
 [R,N,L],[("final write-out of the ROM image","src/rom/mod.rs write()"),("dummy ROM write-out","src/rom/mod.rs gen_fake_rom()"),("JSON write-out","src/nspc/mod.rs Song::write_to_json()")],
 observe=["exit status of the command","bytes of the output file after exit"])
p("C02","A reported failure leaves every existing file as it was",
 "When a command reports failure (missing, unreadable or malformed input, songs that do not fit, a refused open, read, thread or display operation), every file that existed before is byte-for-byte unchanged and no new file is left behind. The one exception is storage that itself fails while the finished result is being written: then (and when an allocation fails, which Rust answers with an abort: a crash, see C03) only the command's own output file may differ, and a ROM being updated still has its length and holds at each byte either the old or the new value.",
 ["fault_sequences","inputs","histories"],"all inputs (valid or not, and failing at any song of any bank) and all fault sequences on any system call",
 "No test exercises a failing command; the guarantee depends on when, relative to the first byte written, each of hundreds of conversion, I/O and thread operations may fail.",
 [R,N,MA,M,L],[("whole image is built in memory before the file is touched","src/rom/mod.rs write()"),("errors propagate with ? before the write-out","src/rom/mod.rs write_bank()"),("conversion precedes creation of the JSON output","src/lib.rs run()")],
 observe=["exit status","all files in the directory before and after"])
p("C03","A crash at any instant leaves a ROM a re-run fully repairs",
 "If the process is killed or the machine loses power at any instant while a command updates a ROM, the ROM keeps its length, every byte of it has either its old value or the value the completed command would have given it, and no other pre-existing file changes. Running the same command again, after any number of such crashes, yields exactly the ROM an uninterrupted run yields; an interrupted JSON or dummy-ROM export is likewise made whole by re-running it.",
 ["crash_points","histories","fault_sequences"],"every instant of the run, including inside a write, with any subset of unsynced sectors lost, and any number of successive crashes",
 "Tests never kill a run; crash points number in the millions per build and the states after a torn write are combinatorial.",
 [R,N],[("the file is opened without truncation and overwritten in place in one pass","src/rom/mod.rs write()"),("chunk headers and bank pointers are never rewritten, so a re-run sees the same geometry","src/rom/mod.rs write_bank()")],
 observe=["disk image after the crash","disk image after the re-run"])
p("C04","Every command terminates under every schedule and fault",
 "Every command ends, in success or reported failure, within a bounded amount of work under every interleaving of its threads, with any thread stalled for arbitrarily long, under any display or I/O failure and any clock behaviour: no deadlock, no endless loop, no wait for something that never comes. Once faults stop, running a valid command succeeds.",
 ["schedules","fault_sequences","inputs"],"all thread interleavings, stall patterns, clock jumps and fault sequences over all inputs",
 "The tests run one natural schedule on an idle machine; a lost wake-up or an unfinished progress line would hang only in schedules or banks they do not reach.",
 [R,L,M,S],[("progress listener thread ends when every bar reported done, and is joined","src/rom/mod.rs write()"),("each bank bar and the song bar are finished on success","src/rom/mod.rs write()"),("chunk walk always advances","src/rom/mod.rs write_bank(), gen_fake_rom()")],
 state=[("progress channel","unbounded queue from builder thread to display thread","pbr MultiBar, created in src/rom/mod.rs write()")],observe=["process end","blocked-thread graph","work counter"])
p("C05","Output depends only on input files and arguments",
 "The bytes a command writes, and whether it succeeds, are a function of its input files and its arguments. Thread scheduling, random hash seeds, the clock, terminal type and size, the way the system splits reads and writes, earlier work in the same process, the verbosity switch and the way the arguments are written (case, leading zeros and mirrors of an address, separators, order and long or short form of options, defaults given explicitly) never change them.",
 ["schedules","configurations","fault_sequences"],"all schedules, hash seeds, clock values and jumps, terminal settings, and fragmentations of I/O that are not errors",
 "Each test is one run under one hash seed and schedule and is never compared with another run.",
 [M,R,S,N],[("note-to-voice maps are only used in ways that do not depend on iteration order","src/midi/mod.rs channels_to_voices()"),("display thread shares no data with the conversion","src/rom/mod.rs write()")],
 state=[("active notes","randomly seeded hash maps from sounding note to voice","src/midi/mod.rs channels_to_voices()")],observe=["output bytes","exit status"])
p("C06","A broken progress display never changes the outcome of a build",
 "When progress cannot be shown (output pipe closed, disk behind a redirected output full, terminal slow, interrupted or refusing), a ROM command still produces the same ROM and the same exit status as with a working display. With verbose output requested it may instead fail, but then the ROM is untouched: a build never replaces the ROM and then reports failure.",
 ["schedules","fault_sequences"],"all failures of the output stream at any write, in every interleaving of the display thread with the building thread",
 "Tests always have a working stdout; whether the display thread's death hits the builder before or after the ROM is written depends on the interleaving.",
 [R],[("progress is drawn by a separate thread fed by a channel","src/rom/mod.rs write()"),("ROM is written before the last progress message and the join","src/rom/mod.rs write()")],
 state=[("progress channel","its receiver's lifetime decides whether a send in the builder panics","src/rom/mod.rs write()")],observe=["exit status","ROM bytes"])
p("C07","Disturbed reads give the same result or an error, never another song",
 "If reading an input (ROM, manifest, MIDI or JSON song) is disturbed - data arriving in pieces of any size, interrupted or failing reads, a song or manifest cut short at any byte - the command either produces exactly the result of the undisturbed complete file or reports failure. It never silently produces a result from part of the file. (A ROM image has no stored length: one cut short counts as disturbed only where what the command reads or sets would lie beyond its end.)",
 ["fault_sequences","inputs"],"all fragmentations, error positions and truncation points of every input file of every command",
 "Tests read intact local files only, with full-size reads.",
 [M,L,N,MA,R],[("read errors are propagated","src/midi/mod.rs MidiHandler::read()"),("JSON parse errors end the command","src/nspc/mod.rs Song::from_json(), src/manifest/mod.rs Manifest::new()"),("whole ROM is read before use","src/rom/mod.rs write()")],
 observe=["exit status","output bytes against the undisturbed run"])
p("C08","Only the song chunks of the target ROM are ever modified",
 "Whatever a ROM command is given and however it ends, it never changes the ROM's length, any byte outside the data of the two song chunks of each of the three banks (so pointers, chunk headers, samples, code and everything else stay), or any other existing file. A command that ends by itself leaves no extra file behind.",
 ["inputs","histories","fault_sequences","crash_points"],"all ROM geometries, song sets (including those that fill or overflow a chunk at any song or track boundary), command histories, faults and crash points",
 "The tests use one dummy ROM with roomy chunks and never compare the bytes around them.",
 [R],[("bounds checks before song headers and tracks are placed","src/rom/mod.rs write_bank()"),("switch to the overflow chunk","src/rom/mod.rs write_bank()"),("call-loop address fix-ups","src/rom/mod.rs write_bank()")],
 state=[("write position","chunk, offset and remaining length for the next song or track","src/rom/mod.rs write_bank()")],observe=["ROM bytes before and after each command"])
p("C09","After any history, each song slot plays the song last assigned to it",
 "After any sequence of successful, failed, crashed and repeated commands on one ROM, loading each bank as the console does and playing each song slot gives exactly the song that the last successful command assigned to that slot: the right tracks on the right channels, every command in order with its parameters at its time, loops expanded, the song looping or ending as requested, silent slots silent. A failed command changes no slot.",
 ["histories","inputs","configurations","fault_sequences"],"all command histories with faults and crashes, ROM geometries, bank addresses, song sets and switches (optimised or not)",
 "No test decodes a ROM; with random songs the interplay of table, part, track and loop addresses with chunk switching has unbounded many cases.",
 [R,N,C,T,S,MA,L],[("song table, part and track pointers","src/rom/mod.rs write_bank()"),("loop address fix-ups","src/rom/mod.rs write_bank()"),("duration/velocity run-length state of the byte writer","src/nspc/command.rs ParameterizedCommand::write()"),("loop extraction","src/nspc/mod.rs extract_sequence()"),("slot order of the manifest","src/manifest/mod.rs")],
 observe=["playback of each slot in a simulated sound driver"])
p("C10","Every note of the MIDI file is played once, in tune and on time",
 "When converting a MIDI file succeeds, every note in it is played exactly once, at its pitch (moved by whole octaves only if the sound driver cannot play it), by one of the eight voices, at its loudness (in the driver's sixteen steps), starting and ending within the driver's time resolution (1/24 beat, with the sounding part in eighths of a command's length) of its true position, and nothing else is played; a file that cannot be converted faithfully is reported as an error. This holds however the file's bytes are delivered by the system and whatever the random hash seed.",
 ["inputs","fault_sequences","configurations"],"all type-1 MIDI files, all fragmentations of their reads, all hash seeds",
 "Tests convert a few sample files and only check that no error is returned.",
 [M,T,N,C],[("per-channel voice intervals and base voice search","src/midi/mod.rs"),("note allocation to voices","src/midi/mod.rs channels_to_voices()"),("time quantisation and rests","src/nspc/track.rs Track::new()")],
 state=[("active notes","note to voice per channel","src/midi/mod.rs"),("last note end","quantised position reached by a voice","src/nspc/track.rs")],observe=["note events of the converted song against the notes of the file"])
p("C11","Concurrent and successive library calls do not affect one another",
 "Programs may call the library from several threads at once, or many times in one process, on different output files. Each call has exactly the outcome it has when run alone in a fresh process, whether the other calls succeed, fail or panic.",
 ["schedules","histories"],"all interleavings of several concurrent callers and all sequences of calls within one process",
 "The integration tests may run in parallel but under one schedule, with the same inputs, and compare nothing.",
 [L,R,M,N,MA],[("no shared mutable state between calls","src/lib.rs, src/rom/mod.rs"),("relative paths resolved against the manifest, not the working directory","src/manifest/mod.rs")],
 observe=["result of each call","bytes of each output file"])
p("C12","A successful build does not depend on what earlier builds left behind",
 "What a successful ROM command writes does not depend on earlier commands on that ROM, whether they succeeded, failed or crashed: every byte it sets is the one it sets on a pristine ROM, the songs it places play the same there, and repeating it changes nothing.",
 ["histories","crash_points","fault_sequences"],"all histories of commands on one ROM, including failed and torn ones",
 "Each test starts from a fresh copy of the dummy ROM and runs one command.",
 [R],[("geometry is read only from headers outside the rewritten data","src/rom/mod.rs write_bank()"),("song table tail, part table and terminators are rewritten in full","src/rom/mod.rs write_bank()")],
 observe=["ROM bytes after the history against a pristine build"])
p("C13","Building from an exported JSON song equals building from the MIDI",
 "Exporting a MIDI song to JSON and building a ROM from the JSON gives byte-for-byte the ROM obtained from the MIDI directly at the default tempo, with or without optimisation. If the export failed or was cut off at any point, building from what it left either reports failure or still gives exactly that ROM.",
 ["inputs","crash_points","fault_sequences"],"all MIDI songs; all crash points and faults in either of the two processes that share the JSON file",
 "No test exports or reads JSON at all.",
 [N,C,T,L],[("one serialisable song type for both routes","src/nspc/mod.rs Song"),("converter selects by extension","src/lib.rs converter()")],
 observe=["ROM bytes of both routes"])
p("C14","A dummy ROM holds only bank structure and is a faithful stand-in",
 "A dummy ROM made from a real one has the same length, carries the bank pointers and chunk headers of the three banks and is zero everywhere else, even if an older file existed at the output path, and the source ROM is unchanged. Any build that succeeds on the real ROM succeeds on the dummy with identical song data, and one that fails on the real ROM fails on the dummy.",
 ["inputs","histories","fault_sequences"],"all ROM geometries and contents, pre-existing outputs, later build histories on either ROM, faults during generation",
 "No test calls the generator; the shipped dummy ROM was made once by hand.",
 [R,L],[("header walk and copy","src/rom/mod.rs gen_fake_rom()")],
 observe=["dummy ROM bytes","bytes written by the same build on both ROMs"])
p("C15","The optimised and the unoptimised conversion of a song play identically",
 "With loop optimisation (the default) and without it (-s), a MIDI song is converted to the same music: in the exported JSON and in the song data of a ROM, every channel plays the same commands with the same parameters, durations, velocities and sustains in the same order, whatever phrases come back, on however many channels, and however often in a row (also beyond 255 times). What converts without optimisation also converts with it, and never to more commands. This holds under every hash seed, schedule and way the input is delivered.",
 ["inputs","configurations","schedules"],"all MIDI songs, in particular those with repeated and overlapping phrases; both output routes; all hash seeds, schedules and fragmentations of reads",
 "Unit tests cover a handful of command sequences on the sequence tree and never compare playback.",
 [S,N,C,R],[("sequence tree and extraction","src/nspc/seqtree.rs, src/nspc/mod.rs"),("call loops in the byte stream","src/nspc/command.rs, src/rom/mod.rs")],observe=["playback of both conversions"])
p("C16","Notes keep their channel's instrument, volume and glide, and the file's tempo",
 "In every successful conversion of a MIDI file, each note plays with the sound-driver instrument that the published table gives for the program its channel has at the note's start (percussion on channel 10: snare for notes 38 and 40, cymbal otherwise), and with the channel volume (controller 7) in force on its channel at its start or set while it sounds - never with that of another channel whose notes use the same voice. A note is reached by a pitch slide only if portamento (controller 65) is on for its channel and has a time (controllers 5 and 37) above zero; then, following a note directly on its voice, it is, in that time and so that the slide ends where the note starts (or begins with the command before, if that is shorter). Tempo changes take effect where the file has them, or from the start of the note that sounds then on the voice carrying them.",
 ["inputs","configurations","fault_sequences"],"all type-1 MIDI files with program, volume, portamento and tempo changes on used and unused channels, chords that spill into spare voices, all hash seeds and fragmentations of reads",
 "No test looks at instruments, volumes, portamento or tempo; which voice a note gets, and which channel used it before, depends on the whole file.",
 ["src/nspc/instruments.rs",T,M],[("per-voice program and volume state","src/midi/mod.rs channels_to_voices()"),("program table","src/nspc/instruments.rs"),("tempo, instrument and volume commands among rests","src/nspc/track.rs Track::new()")],
 state=[("program and volume per channel and per voice","what the channel has and what the voice was last given","src/midi/mod.rs channels_to_voices()")],observe=["instrument, volume and tempo in force at each note of the converted song"])
p("C17","Merging a note with its following rest preserves total time",
 "Folding a rest into the preceding note as sustain never changes the time taken by the two together, and only happens when the sounding part is representable.",
 ["inputs"],"all pairs of durations","Nine example pairs are tested.",
 [C],[("set_sustain","src/nspc/command.rs")])
p("C18","Valid inputs with enough room are accepted, down to the last byte",
 "A command whose inputs are valid succeeds unless there is a reason it can name. A ROM build whose manifest, songs and ROM are valid is accepted and gives a ROM that plays every song whenever the song data fits in the two song chunks of each bank, even when it fills one or both to the last byte or the first chunk holds no song at all; a MIDI file that uses at most eight channels, one note at a time on each, can be exported, dumped and built; any ROM with three valid banks behind the default pointers can be turned into a dummy. Short transfers, interrupted calls, slow or jumping clocks, any schedule, terminal or environment, an existing output file, inputs that are write-protected and, for ROM builds, a failing display are no reasons.",
 ["inputs","schedules","fault_sequences","configurations"],"all valid songs, manifests and ROM geometries, in particular those with no byte to spare; all schedules and all behaviour of the system short of an error on a file the command needs",
 "Tests build on one dummy ROM with plenty of room, with undisturbed calls and writable inputs.",
 [R,L,S,M],[("fit checks against the two chunks","src/rom/mod.rs write_bank()"),("how inputs are opened","src/lib.rs, src/nspc/mod.rs, src/midi/reader.rs, src/manifest/mod.rs")],
 observe=["exit status","playback of every slot of the built ROM"])
p("C19","The voices of a converted song end together, not before its last note",
 "The sound driver ends a song, or starts it again, as soon as any one of its voices ends. So in every successful conversion of a MIDI file all voices that have anything to do last equally long (within the driver's resolution of 1/24 beat), from the song's start at least to the end of its last note and at most to the last event of the file: no voice cuts off the notes of another, and a song that loops keeps its voices in step.",
 ["inputs","configurations","fault_sequences"],"all type-1 MIDI files, in particular with voices that fall silent early, start late or only carry tempo, and with events after the last note; with and without loop optimisation; all routes to a song (JSON export, ROM); all hash seeds and fragmentations of reads",
 "Tests never add up a track; a voice that is short only shows when the song reaches its end.",
 [T,M,N],[("every track is padded with rests to the end of the song","src/nspc/track.rs Track::new()"),("end of the song","src/midi/mod.rs MidiHandler::read() max_time"),("loop extraction keeps a track's length","src/nspc/mod.rs extract_sequence()")],
 state=[("max_time","last event of any channel","src/midi/mod.rs")],observe=["duration of every track of the converted song, loops expanded"])
p("C20","A MIDI dump shows the whole file, or says that it could not",
 "dump_midi lists every event of every track of the file, in the file's order, with the time since the event before, its kind and its data (but for the value of a pitch bend, which the MIDI library decodes). Whenever it succeeds without reporting an error, all of that listing has reached the output: reads in pieces, interrupted calls, an output that takes a few bytes at a time, the schedule, the hash seed, the environment and the clock change nothing in it, and a file that is cut short, cannot be read, or an output that cannot be written is reported. It changes no file.",
 ["inputs","fault_sequences","configurations"],"all MIDI files with all kinds of events, every truncation, every failing, short or interrupted call, all hash seeds",
 "No test looks at the dump, or at an output that fails or takes only part of a write.",
 [L,M,"src/midi/reader.rs"],[("events kept as read","src/midi/mod.rs impl Handler for MidiHandler"),("dump and error report","src/lib.rs run()")],
 observe=["standard output","exit status","files before and after"])
p("C21","What cannot be carried out is refused, not guessed at",
 "A command whose inputs do not say what to do fails and changes no file, whatever the schedule, the display and short or interrupted calls do. That is so when a manifest is not JSON, or does not give every song of the three banks an input (a string), or a tempo adjustment that is no number or a loop that is neither true nor false; when a JSON song is not JSON of the documented form (with parts and tracks, each command known, with as many arguments as it takes, each a byte; notes from 0x80 to 0xdf, durations up to 0x7f, velocities up to 15, sustains up to 7, and no note whose duration nothing gives), has more than eight tracks in its part, plays or calls a track that does not exist, or calls a loop no times or from within a loop; when a MIDI file lacks its header, counts time in frames, or ends before the tracks it announces; when a ROM ends before a bank does, or a bank has no chunk for D000 or one too short for the song table; when a bank address is no hexadecimal number or there are not three; and when a file is missing, even if one of its name lies elsewhere.",
 ["inputs","fault_sequences","schedules","configurations"],"all manifests, songs, MIDI files, ROMs and arguments with any one thing wrong, at any place - in particular in the last song, after everything before it was converted; all schedules and soft faults",
 "Tests use well-formed inputs only.",
 [R,L,N,M,MA,C],[("manifest reading","src/manifest/mod.rs Song::new()"),("song reading and writing","src/nspc/mod.rs from_json(), src/nspc/command.rs write()"),("MIDI reading","src/midi/reader.rs"),("bank checks","src/rom/mod.rs write_bank()"),("bank addresses","src/lib.rs read_bank_addrs()")],
 observe=["exit status","bytes of every file before and after"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))
