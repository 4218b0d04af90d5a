From 278124c6342e85baed7f2d228d0709c0ccc23319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 01/33] fix: write the whole ROM image even when a write is
 short

---
 src/rom/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 5d034b2..afd686d 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -119,7 +119,7 @@ pub fn write(
     )?;
 
     file.seek(SeekFrom::Start(0))?;
-    file.write(&romdata)?;
+    file.write_all(&romdata)?;
     songs_pb.finish_print("All songs written.");
     mb_thread.join().unwrap();
     Ok(())
@@ -465,6 +465,6 @@ pub fn gen_fake_rom(
         .create(true)
         .write(true)
         .open(output_path)?;
-    out_file.write(&out_romdata)?;
+    out_file.write_all(&out_romdata)?;
     Ok(())
 }
-- 
2.43.0


From 41a3a6bb40eb9e825df671e94c68640d36a280c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 02/33] fix: gen_fake_rom leaves no stale tail of an existing
 longer output file

---
 src/rom/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index afd686d..619a4a0 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -464,6 +464,7 @@ pub fn gen_fake_rom(
     let mut out_file = OpenOptions::new()
         .create(true)
         .write(true)
+        .truncate(true)
         .open(output_path)?;
     out_file.write_all(&out_romdata)?;
     Ok(())
-- 
2.43.0


From d6466ed6f48d081e99bf6f8d804700aed1b99685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 03/33] fix: a failing display no longer aborts the ROM build

---
 src/rom/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 619a4a0..63b17f0 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -4,7 +4,7 @@ use self::pbr::*;
 use failure::Error;
 use std::fs::OpenOptions;
 use std::io::prelude::*;
-use std::io::{Cursor, SeekFrom};
+use std::io::{self, Cursor, SeekFrom};
 use std::path::Path;
 use std::thread;
 
@@ -27,6 +27,22 @@ fn addr_to_bytes(addr: usize) -> (u8, u8) {
     ((addr >> 8 & 0xFF) as u8, (addr & 0xFF) as u8)
 }
 
+/// Standard output for the progress bars. They are only informative, and pbr panics when its
+/// output fails, so an error here (closed pipe, full disk) must not abort the ROM build.
+struct Display;
+
+impl Write for Display {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        let _ = io::stdout().write_all(buf);
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        let _ = io::stdout().flush();
+        Ok(())
+    }
+}
+
 struct RomCallLoopRef {
     pub target_track: usize,
     pub chunk_base: usize,
@@ -75,7 +91,7 @@ pub fn write(
         .banks
         .iter()
         .fold(0, |acc, bank| acc + bank.songs.len());
-    let mut mb = MultiBar::new();
+    let mut mb = MultiBar::on(Display);
     let mut songs_pb = mb.create_bar(num_songs as u64);
     let mut bank_pbs = manifest
         .banks
-- 
2.43.0


From 2b4e06c0ac6433894a4781b6e6ca8dd3e19b0bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 04/33] fix: MIDI tracks are no longer dropped silently when a
 file is truncated or a read is short

ghakuf's Reader takes a read of fewer than four bytes at a track's tag for the end of the
file. That loses the remaining tracks of a truncated file without an error, and of an intact
file whose tag lies across the reader's buffer boundary or whose reads are short.
---
 src/midi/mod.rs    |  13 ++---
 src/midi/reader.rs | 117 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 122 insertions(+), 8 deletions(-)
 create mode 100644 src/midi/reader.rs

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 509e5b2..a6de2d6 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -1,11 +1,14 @@
 use failure::Error;
 use ghakuf::messages::*;
-use ghakuf::reader::*;
+use ghakuf::reader::Handler;
 use itertools::*;
 use std::collections::HashMap;
+use std::fs;
 use std::path::Path;
 use super::nspc::instruments::*;
 
+mod reader;
+
 const SNARE_NOTE: u8 = 68;
 
 #[derive(Debug, Fail)]
@@ -145,13 +148,7 @@ impl MidiHandler {
         if verbose {
             println!("reading {:?}", path);
         }
-        {
-            let mut midi_reader =
-                Reader::new(self, path).map_err(|err| format_err!("MIDI read error: {:?}", err))?;
-            midi_reader
-                .read()
-                .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
-        }
+        reader::read(&fs::read(path)?, self)?;
         self.tracks_to_channels(verbose);
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
diff --git a/src/midi/reader.rs b/src/midi/reader.rs
new file mode 100644
index 0000000..1a06129
--- /dev/null
+++ b/src/midi/reader.rs
@@ -0,0 +1,117 @@
+//! Feeds the contents of a standard MIDI file to a `Handler`.
+//!
+//! ghakuf's `Reader` takes a read that returns fewer than the four bytes of a chunk's tag for the
+//! end of the file, which drops the remaining tracks without an error when the file is truncated
+//! there, but also for an intact file whose reads are split in the middle of a tag.
+
+use failure::Error;
+use ghakuf::formats::*;
+use ghakuf::messages::*;
+use ghakuf::reader::Handler;
+
+const HEADER_LENGTH: usize = 6;
+
+struct Bytes<'a> {
+    remaining: &'a [u8],
+}
+
+impl<'a> Bytes<'a> {
+    fn take(&mut self, length: usize) -> Result<&'a [u8], Error> {
+        ensure!(
+            length <= self.remaining.len(),
+            "MIDI read error: unexpected end of data"
+        );
+        let (taken, remaining) = self.remaining.split_at(length);
+        self.remaining = remaining;
+        Ok(taken)
+    }
+
+    fn u8(&mut self) -> Result<u8, Error> {
+        Ok(self.take(1)?[0])
+    }
+
+    fn uint(&mut self, length: usize) -> Result<usize, Error> {
+        Ok(self
+            .take(length)?
+            .iter()
+            .fold(0, |acc, &byte| acc << 8 | byte as usize))
+    }
+
+    fn vlq(&mut self) -> Result<u32, Error> {
+        let mut builder = VLQBuilder::new();
+        while !builder.closed() {
+            builder.push(self.u8()?);
+        }
+        Ok(builder.build().val())
+    }
+
+    fn vlq_data(&mut self) -> Result<Vec<u8>, Error> {
+        let length = self.vlq()?;
+        Ok(self.take(length as usize)?.to_vec())
+    }
+}
+
+pub fn read(data: &[u8], handler: &mut Handler) -> Result<(), Error> {
+    let mut file = Bytes { remaining: data };
+    ensure!(
+        file.take(4)? == Tag::Header.binary() && file.uint(4)? == HEADER_LENGTH,
+        "MIDI read error: not a MIDI file"
+    );
+    let format = file.uint(2)? as u16;
+    let num_tracks = file.uint(2)?;
+    let time_base = file.uint(2)? as u16;
+    handler.header(format, num_tracks as u16, time_base);
+
+    let mut tracks_read = 0;
+    // fewer bytes than a tag after the last track are padding
+    while tracks_read < num_tracks || file.remaining.len() >= 4 {
+        ensure!(
+            file.take(4)? == Tag::Track.binary(),
+            "MIDI read error: invalid track tag"
+        );
+        let length = file.uint(4)?;
+        let track = Bytes {
+            remaining: file.take(length)?,
+        };
+        handler.track_change();
+        read_track(track, handler)?;
+        tracks_read += 1;
+    }
+    Ok(())
+}
+
+fn read_track(mut track: Bytes, handler: &mut Handler) -> Result<(), Error> {
+    let mut running_status = 0u8;
+    while !track.remaining.is_empty() {
+        let delta_time = track.vlq()?;
+        ensure!(
+            !track.remaining.is_empty(),
+            "MIDI read error: unexpected end of data"
+        );
+        let status = if track.remaining[0] < 0x80 {
+            running_status
+        } else {
+            track.u8()?
+        };
+        match status {
+            0xff => {
+                let event = MetaEvent::new(track.u8()?);
+                handler.meta_event(delta_time, &event, &track.vlq_data()?);
+            }
+            0x80..=0xef => {
+                let mut builder = MidiEventBuilder::new(status);
+                while builder.shortage() > 0 {
+                    builder.push(track.u8()?);
+                }
+                handler.midi_event(delta_time, &builder.build());
+                running_status = status;
+            }
+            0xf0 | 0xf7 => {
+                let event = SysExEvent::new(status);
+                handler.sys_ex_event(delta_time, &event, &track.vlq_data()?);
+            }
+            _ => bail!("MIDI read error: unknown message status {}", status),
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From 35390b212fa4baa49e45b0685f4f66f546108116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 05/33] fix: notes after a call loop no longer play with the
 velocity and sustain the called track left behind

---
 src/nspc/command.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3aecdb0..2eb967a 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -357,6 +357,11 @@ impl ParameterizedCommand {
             out.write_u8(velocity_sustain)?;
         }
         self.command.write(out, call_loops)?;
+        if let Command::CallLoop(..) = self.command {
+            // the called track leaves its own duration, velocity and sustain behind
+            duration_out = 0;
+            velocity_sustain_out = None;
+        }
         Ok((duration_out, velocity_sustain_out))
     }
 
-- 
2.43.0


From 5a85b4e1de7769b64272145faefb285a9304c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 06/33] fix: a song too long for the overflow chunk is reported
 instead of overwriting what follows the chunk

---
 src/rom/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 63b17f0..7462081 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -225,9 +225,10 @@ fn write_bank(
         };
 
         // check if non-track data fits in chunk
-        if song_offset + (if song_def.loops { 8 } else { 4 }) + 16 > chunk_length {
+        let non_track_length = (if song_def.loops { 8 } else { 4 }) + 16;
+        if song_offset + non_track_length > chunk_length {
             ensure!(
-                aram_base_addr != aram_overflow_base,
+                aram_base_addr != aram_overflow_base && non_track_length <= overflow_chunk_len,
                 "{} bank does not fit in available chunks",
                 bank.name
             );
@@ -301,7 +302,8 @@ fn write_bank(
             // check if track data fits in chunk
             if track_data_offset + track_data.len() > chunk_length {
                 ensure!(
-                    aram_base_addr != aram_overflow_base,
+                    aram_base_addr != aram_overflow_base
+                        && track_data.len() <= overflow_chunk_len,
                     "{} bank does not fit in available chunks",
                     bank.name
                 );
-- 
2.43.0


From dcfb1f32445837040420a6b1ec46fb2114d9c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 07/33] fix: call loops of the track that moves to the overflow
 chunk are linked where the track is

---
 src/rom/mod.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 7462081..f8a2988 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -293,8 +293,6 @@ fn write_bank(
         for i in 0..song_data.get_num_tracks() {
             let track_data = Vec::<u8>::new();
             let mut track_call_loops = Vec::<CallLoopRef>::new();
-            let mut pre_chunk_switch_track_call_loops = Vec::<CallLoopRef>::new();
-            let track_start_offset = track_data_offset;
             let mut cursor = Cursor::new(track_data);
             song_data.write_track(&mut cursor, i, &mut track_call_loops)?;
             let track_data = cursor.into_inner();
@@ -317,8 +315,6 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
-                pre_chunk_switch_track_call_loops.extend_from_slice(track_call_loops.as_slice());
-                track_call_loops.clear();
             };
 
             if verbose {
@@ -335,15 +331,6 @@ fn write_bank(
                     track_data.iter().cloned(),
                 );
                 track_addrs.push(aram_base_addr + track_data_offset);
-                pre_chunk_switch_track_call_loops
-                    .iter()
-                    .for_each(|call_loop| {
-                        call_loops.push(RomCallLoopRef {
-                            target_track: call_loop.target_track,
-                            chunk_base: base_chunk_addr + track_start_offset,
-                            ref_pos: call_loop.ref_pos,
-                        })
-                    });
                 track_call_loops.iter().for_each(|call_loop| {
                     call_loops.push(RomCallLoopRef {
                         target_track: call_loop.target_track,
-- 
2.43.0


From 0fc4db24d714e7993f62034a49e6cce89162b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 08/33] fix: a note merged with the rest after it stays within
 the longest duration a command can have

---
 src/nspc/command.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 2eb967a..6c4cbe9 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -379,7 +379,10 @@ impl ParameterizedCommand {
                 let note_duration = self.duration.unwrap() as u16;
                 let rest_duration = next_command.duration.unwrap() as u16;
                 let total_duration = note_duration + rest_duration;
-                if (note_duration * 8) % total_duration == 0 || note_duration > rest_duration * 16 {
+                if total_duration <= 0x7f
+                    && ((note_duration * 8) % total_duration == 0
+                        || note_duration > rest_duration * 16)
+                {
                     let sustain = ((note_duration * 8) / total_duration) as u8;
                     self.sustain = Some(sustain.min(7));
                     self.duration = Some(total_duration as u8);
-- 
2.43.0


From 82ed204237744fb57b8f20cb8cf0ca68eb4dd616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 09/33] fix: refuse a base chunk that cannot hold the song
 table instead of writing the table past it

---
 src/rom/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index f8a2988..a1dc30b 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -183,6 +183,11 @@ fn write_bank(
         "Couldn't find base chunk for {} bank",
         bank.name
     );
+    ensure!(
+        base_chunk_len >= first_song_addr - ARAM_BASE,
+        "Base chunk for {} bank is too short for the song table",
+        bank.name
+    );
     ensure!(
         overflow_chunk_addr != 0,
         "Couldn't find overflow chunk for {} bank",
-- 
2.43.0


From 1deff598059a61f7cc97c129fdc4086c511f1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 10/33] fix: MIDI notes the sound driver cannot play move by
 octaves instead of corrupting the track

---
 src/nspc/track.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 84e9434..e64d436 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -18,7 +18,24 @@ struct Duration {
     overflow_count: u8,
 }
 
+// range of MIDI notes the sound driver can play
+const LOWEST_NOTE: u8 = 24;
+const HIGHEST_NOTE: u8 = 95;
+
 impl Track {
+    /// The driver's code for a MIDI note, moved by whole octaves if it is out of range: the codes
+    /// beyond the range mean durations and commands.
+    fn driver_note(note: u8) -> u8 {
+        let mut note = note;
+        while note < LOWEST_NOTE {
+            note += 12;
+        }
+        while note > HIGHEST_NOTE {
+            note -= 12;
+        }
+        note + 0x68
+    }
+
     fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
         let length_beats = (ticks as f32) / (ticks_per_beat as f32);
         let length = length_beats * 24.0;
@@ -134,7 +151,7 @@ impl Track {
                                     if push_as_tie {
                                         Command::Tie
                                     } else {
-                                        Command::Note(note + 0x68)
+                                        Command::Note(Track::driver_note(note))
                                     },
                                 ));
                                 for i in 0..duration.overflow_count {
@@ -172,7 +189,7 @@ impl Track {
                                                 true,
                                             )
                                                 .length,
-                                            note + 0x68,
+                                            Track::driver_note(note),
                                         )
                                     });
                                 }
-- 
2.43.0


From 21d97f894480e11d16769705ebb08b2faf945ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 11/33] fix: note times are quantised from their absolute
 positions, so that rounding does not add up

Durations were rounded one by one, in f32, and back to MIDI ticks: with ticks per beat not
a multiple of 24 a voice drifts, a note whose start was rounded past its end underflows, a
note of no length is written without a duration byte, and a duration of more than 255 * 127
driver ticks wraps.
---
 src/nspc/command.rs | 13 ++++++++++
 src/nspc/track.rs   | 58 ++++++++++++++++++++++++---------------------
 2 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 6c4cbe9..65626f7 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -393,6 +393,19 @@ impl ParameterizedCommand {
         false
     }
 
+    /// Makes a note one tick longer, if the command is one and can be.
+    pub fn lengthen_note(&mut self) -> bool {
+        match (&self.command, self.duration) {
+            (&Command::Note(..), Some(duration)) | (&Command::Tie, Some(duration))
+                if duration < 0x7f =>
+            {
+                self.duration = Some(duration + 1);
+                true
+            }
+            _ => false,
+        }
+    }
+
     pub fn create_pitch_slide(
         &self,
         slide_time: u8,
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index e64d436..6de547c 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -14,8 +14,7 @@ pub struct Track {
 #[derive(Debug)]
 struct Duration {
     length: u8,
-    quantized_ticks: u32,
-    overflow_count: u8,
+    overflow_count: u32,
 }
 
 // range of MIDI notes the sound driver can play
@@ -36,35 +35,35 @@ impl Track {
         note + 0x68
     }
 
-    fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
-        let length_beats = (ticks as f32) / (ticks_per_beat as f32);
-        let length = length_beats * 24.0;
-        let quantized_length = if ceil {
-            length.ceil() as u32
+    /// MIDI ticks in driver ticks, of which a beat has 24.
+    fn quantize(ticks: u32, ticks_per_beat: u16, ceil: bool) -> u32 {
+        let scaled = ticks as u64 * 24;
+        let ticks_per_beat = ticks_per_beat as u64;
+        if ceil {
+            ((scaled + ticks_per_beat - 1) / ticks_per_beat) as u32
         } else {
-            length.floor() as u32
-        };
-        let quantized_ticks = quantized_length * (ticks_per_beat as u32) / 24;
+            (scaled / ticks_per_beat) as u32
+        }
+    }
+
+    fn get_duration(quantized_length: u32) -> Duration {
         if quantized_length > 0x7f {
             let overflow_amount = quantized_length % 0x7f;
             let overflow_count = quantized_length / 0x7f;
             if overflow_amount == 0 {
                 Duration {
                     length: 0x7f,
-                    quantized_ticks,
-                    overflow_count: (overflow_count - 1) as u8,
+                    overflow_count: overflow_count - 1,
                 }
             } else {
                 Duration {
                     length: overflow_amount as u8,
-                    quantized_ticks,
-                    overflow_count: overflow_count as u8,
+                    overflow_count,
                 }
             }
         } else {
             Duration {
                 length: quantized_length as u8,
-                quantized_ticks,
                 overflow_count: 0,
             }
         }
@@ -76,8 +75,14 @@ impl Track {
         abs_time: u32,
         ticks_per_beat: u16,
     ) -> u32 {
-        if abs_time > last_note_end {
-            let duration = Track::get_duration(abs_time - last_note_end, ticks_per_beat, false);
+        let rest_end = Track::quantize(abs_time, ticks_per_beat, false);
+        if rest_end == last_note_end + 1
+            && commands.last_mut().map_or(false, |cmd| cmd.lengthen_note())
+        {
+            // a gap as short as the resolution is not worth a command
+            rest_end
+        } else if rest_end > last_note_end {
+            let duration = Track::get_duration(rest_end - last_note_end);
             for _ in 0..duration.overflow_count {
                 commands.push(ParameterizedCommand::new(
                     Some(0x7f),
@@ -94,7 +99,7 @@ impl Track {
                     Command::Rest,
                 ));
             }
-            last_note_end + duration.quantized_ticks
+            rest_end
         } else {
             last_note_end
         }
@@ -110,7 +115,7 @@ impl Track {
         let mut commands = Vec::new();
         let mut note_start: Option<u32> = None;
         let mut note_velocity = 0;
-        let mut last_note_end = 0u32;
+        let mut last_note_end = 0u32; // in driver ticks, like note_start
         let mut portamento = false;
         let mut port_time = 0u16;
         for &(ref message, abs_time) in events {
@@ -137,8 +142,9 @@ impl Track {
                     match *event {
                         MidiEvent::NoteOff { note, .. } => {
                             if let Some(start) = note_start {
-                                let duration =
-                                    Track::get_duration(abs_time - start, ticks_per_beat, true);
+                                let end = Track::quantize(abs_time, ticks_per_beat, true)
+                                    .max(start + 1);
+                                let duration = Track::get_duration(end - start);
                                 let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
@@ -166,7 +172,7 @@ impl Track {
                                         Command::Tie,
                                     ));
                                 }
-                                last_note_end = start + duration.quantized_ticks;
+                                last_note_end = end;
                                 note_start = None;
                             }
                         }
@@ -183,11 +189,11 @@ impl Track {
                                     let last_command = commands.last();
                                     pitch_slide = last_command.and_then(|cmd| {
                                         cmd.create_pitch_slide(
-                                            Track::get_duration(
+                                            Track::get_duration(Track::quantize(
                                                 port_time as u32,
                                                 ticks_per_beat,
                                                 true,
-                                            )
+                                            ))
                                                 .length,
                                             Track::driver_note(note),
                                         )
@@ -263,9 +269,7 @@ impl Track {
         }
         let mut commands_with_sustain = Vec::new();
         if !commands.is_empty() {
-            if max_time > last_note_end {
-                Track::insert_rest(&mut commands, last_note_end, max_time, ticks_per_beat);
-            }
+            Track::insert_rest(&mut commands, last_note_end, max_time, ticks_per_beat);
             let mut skip_next_rest = false;
             for i in 0..commands.len() - 1 {
                 if skip_next_rest {
-- 
2.43.0


From 5880accfcbcc6336dc1f876880908b05e5f25171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 12/33] fix: a program change while a note sounds no longer
 inserts a rest that delays the voice

---
 src/nspc/track.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 6de547c..a4c77c2 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -115,6 +115,7 @@ impl Track {
         let mut commands = Vec::new();
         let mut note_start: Option<u32> = None;
         let mut note_velocity = 0;
+        let mut next_instrument: Option<u8> = None;
         let mut last_note_end = 0u32; // in driver ticks, like note_start
         let mut portamento = false;
         let mut port_time = 0u16;
@@ -174,6 +175,14 @@ impl Track {
                                 }
                                 last_note_end = end;
                                 note_start = None;
+                                if let Some(instrument) = next_instrument.take() {
+                                    commands.push(ParameterizedCommand::new(
+                                        None,
+                                        None,
+                                        None,
+                                        Command::SetInstrument(instrument),
+                                    ));
+                                }
                             }
                         }
                         MidiEvent::NoteOn { velocity, note, .. } => {
@@ -238,19 +247,24 @@ impl Track {
                             // TODO
                         }
                         MidiEvent::ProgramChange { ch, program, .. } => {
-                            last_note_end = Track::insert_rest(
-                                &mut commands,
-                                last_note_end,
-                                abs_time,
-                                ticks_per_beat,
-                            );
                             let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
-                            commands.push(ParameterizedCommand::new(
-                                None,
-                                None,
-                                None,
-                                Command::SetInstrument(instrument),
-                            ));
+                            if note_start.is_some() {
+                                // takes effect after the note that is sounding
+                                next_instrument = Some(instrument);
+                            } else {
+                                last_note_end = Track::insert_rest(
+                                    &mut commands,
+                                    last_note_end,
+                                    abs_time,
+                                    ticks_per_beat,
+                                );
+                                commands.push(ParameterizedCommand::new(
+                                    None,
+                                    None,
+                                    None,
+                                    Command::SetInstrument(instrument),
+                                ));
+                            }
                         }
                         MidiEvent::ChannelPressure { .. } => {
                             // TODO
-- 
2.43.0


From 3f734432cddc8c99879eeb2773e010c44287cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 13/33] fix: a snare hit ended by a note-on plays at the
 snare's pitch like one ended by a note-off

---
 src/midi/mod.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index a6de2d6..6c2314a 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -11,6 +11,19 @@ mod reader;
 
 const SNARE_NOTE: u8 = 68;
 
+fn is_snare(note: u8) -> bool {
+    note == 38 || note == 40
+}
+
+/// The note a voice plays for a note of a channel.
+fn voice_note(ch: usize, note: u8) -> u8 {
+    if ch == 9 && is_snare(note) {
+        SNARE_NOTE
+    } else {
+        note
+    }
+}
+
 #[derive(Debug, Fail)]
 enum MidiError {
     #[fail(display = "{}: Couldn't fit notes into available channels", path)]
@@ -396,18 +409,14 @@ impl MidiHandler {
                         let ch = ch as usize;
                         if active_notes[ch].contains_key(&note) {
                             let voice = active_notes[ch].remove(&note).unwrap();
-                            if ch == 9 {
-                                self.voices[voice].messages.push((Message::MidiEvent {
-                                    delta_time,
-                                    event: MidiEvent::NoteOff {
-                                        ch: ch as u8,
-                                        note: if note == 38 || note == 40 { SNARE_NOTE } else { note },
-                                        velocity,
-                                    }
-                                }, abs_time))
-                            } else {
-                                self.voices[voice].messages.push(next_event.clone());
-                            }
+                            self.voices[voice].messages.push((Message::MidiEvent {
+                                delta_time,
+                                event: MidiEvent::NoteOff {
+                                    ch: ch as u8,
+                                    note: voice_note(ch, note),
+                                    velocity,
+                                }
+                            }, abs_time))
                         }
                     }
                     MidiEvent::NoteOn { ch, note, velocity } => {
@@ -419,7 +428,7 @@ impl MidiHandler {
                                     delta_time,
                                     event: MidiEvent::NoteOff {
                                         ch: ch as u8,
-                                        note,
+                                        note: voice_note(ch, note),
                                         velocity,
                                     },
                                 },
@@ -478,7 +487,7 @@ impl MidiHandler {
                                 last_channel_per_voice[next_voice] = Some(ch);
                             };
                             if ch == 9 {
-                                let instr = if note == 38 || note == 40 { SNARE } else { CYMBAL };
+                                let instr = if is_snare(note) { SNARE } else { CYMBAL };
                                 if last_percussion_instr != instr {
                                     let prog_change = (
                                         Message::MidiEvent {
@@ -498,7 +507,7 @@ impl MidiHandler {
                                     delta_time,
                                     event: MidiEvent::NoteOn {
                                         ch: ch as u8,
-                                        note: if note == 38 || note == 40 { SNARE_NOTE } else { note },
+                                        note: voice_note(ch, note),
                                         velocity,
                                     }
                                 }, abs_time))
-- 
2.43.0


From fea02e0f81090dfa1f376d3d2922d28df87086c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 14/33] fix: a note-off without a note, or a note struck twice,
 no longer miscounts the voices in use

The count wrapped below zero, or stayed above zero to the end, so that a song that fits was refused.
---
 src/midi/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 6c2314a..fbd66f7 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -2,7 +2,7 @@ use failure::Error;
 use ghakuf::messages::*;
 use ghakuf::reader::Handler;
 use itertools::*;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fs;
 use std::path::Path;
 use super::nspc::instruments::*;
@@ -166,36 +166,36 @@ impl MidiHandler {
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
-            let mut active_voices = 0usize;
+            let mut active_notes = HashSet::new();
             for message in &channel.messages {
                 match *message {
                     (Message::MidiEvent { ref event, .. }, abs_time) => {
                         match *event {
-                            MidiEvent::NoteOff { .. } => {
+                            MidiEvent::NoteOff { note, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_notes.len(),
                                     });
                                 }
-                                active_voices -= 1;
+                                active_notes.remove(&note);
                                 last_interval_end = abs_time;
                             }
-                            MidiEvent::NoteOn { velocity, .. } => {
+                            MidiEvent::NoteOn { note, velocity, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_notes.len(),
                                     });
                                 }
                                 if velocity == 0 {
-                                    active_voices -= 1;
+                                    active_notes.remove(&note);
                                 } else {
-                                    active_voices += 1;
+                                    active_notes.insert(note);
                                 }
                                 last_interval_end = abs_time;
                             }
-- 
2.43.0


From a6a4f8da33f233009478d32337283cbce542fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 15/33] fix: report a MIDI time division that is not in ticks
 per beat

---
 src/midi/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index fbd66f7..0aa9b3f 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -162,6 +162,10 @@ impl MidiHandler {
             println!("reading {:?}", path);
         }
         reader::read(&fs::read(path)?, self)?;
+        ensure!(
+            self.ticks_per_beat > 0 && self.ticks_per_beat < 0x8000,
+            "MIDI read error: unsupported time division"
+        );
         self.tracks_to_channels(verbose);
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
-- 
2.43.0


From 9013db40cdf1daadfaafc7ef56d313ceb34467b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 16/33] fix: a sequence repeated more than 255 times no longer
 wraps the repeat count of its call loop

---
 src/nspc/seqtree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 7539ff6..5a7185d 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -563,7 +563,7 @@ impl SeqTree {
                 && seq
                     .locations
                     .iter()
-                    .fold(0, |acc, &loc| acc + loc.repeat_count)
+                    .fold(0, |acc, &loc| acc + loc.repeat_count as usize)
                     > 1
         })
         .max_by_key(score)
@@ -580,6 +580,7 @@ impl SeqTree {
             } else if consolidated.last().map_or(false, |loc: &Location| {
                 loc.track_idx == location.track_idx
                     && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx
+                    && loc.repeat_count < u8::max_value()
             }) {
                 consolidated.last_mut().unwrap().repeat_count += 1;
             } else {
-- 
2.43.0


From f88d84622f6a6a6d2382da9eccee844ef11f62f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 17/33] fix: refuse a song with more than eight tracks instead
 of writing past its part table

---
 src/rom/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index a1dc30b..3fa4952 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -229,6 +229,12 @@ fn write_bank(
             None => Song::empty()?,
         };
 
+        ensure!(
+            song_data.get_part_tracks(0).len() <= 8,
+            "Song for {} bank has more than 8 tracks in a part",
+            bank.name
+        );
+
         // check if non-track data fits in chunk
         let non_track_length = (if song_def.loops { 8 } else { 4 }) + 16;
         if song_offset + non_track_length > chunk_length {
-- 
2.43.0


From adea45181809b84b25ecbc2387c090154717e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 18/33] fix: the quietest notes play at the driver's lowest
 velocity, not at that of the note before

---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index a4c77c2..23ce1e7 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -153,7 +153,7 @@ impl Track {
                                     } else {
                                         duration.length
                                     }),
-                                    Some(note_velocity / 8),
+                                    Some((note_velocity / 8).max(1)), // 0 means unchanged
                                     Some(7),
                                     if push_as_tie {
                                         Command::Tie
-- 
2.43.0


From 1e13aac59889fee6feffb65d797934729936118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 19/33] fix: call loops repeat a sequence exactly as often as
 the song does

A location reached through a whole edge of the tree was added twice, so a sequence that occurs
twice in a row and goes on was called three times; a pair of repeats adjoining another counted
as one.
---
 src/nspc/seqtree.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 5a7185d..90298a1 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -424,20 +424,12 @@ impl SeqTree {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
                         if shared_prefix.len() == edge.commands.len() {
-                            add_location(
-                                &mut edge.target.as_mut().unwrap().locations,
+                            edge.target.as_mut().unwrap().add_commands(
+                                &commands[shared_prefix.len()..],
                                 track_idx,
                                 seq_start,
                                 shared_seq_len,
                             );
-                            if shared_prefix.len() < commands.len() {
-                                edge.target.as_mut().unwrap().add_commands(
-                                    &commands[shared_prefix.len()..],
-                                    track_idx,
-                                    seq_start,
-                                    shared_seq_len,
-                                );
-                            }
                         } else {
                             let mut new_target = SeqTree {
                                 edges: Vec::new(),
@@ -580,9 +572,10 @@ impl SeqTree {
             } else if consolidated.last().map_or(false, |loc: &Location| {
                 loc.track_idx == location.track_idx
                     && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx
-                    && loc.repeat_count < u8::max_value()
+                    && loc.repeat_count as usize + location.repeat_count as usize
+                        <= u8::max_value() as usize
             }) {
-                consolidated.last_mut().unwrap().repeat_count += 1;
+                consolidated.last_mut().unwrap().repeat_count += location.repeat_count;
             } else {
                 consolidated.push(location.clone());
             }
-- 
2.43.0


From 36e963483e60cb09462ef52c0b1f382a80d088fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 20/33] fix: notes play with the program and volume of their
 own channel, not of another that used the voice

---
 src/midi/mod.rs | 99 ++++++++++++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 51 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 0aa9b3f..9895cfe 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -345,26 +345,26 @@ impl MidiHandler {
         let channels = &self.channels;
         let mut last_abs_time: Vec<u32> = Vec::new();
         let mut curr_event_idx: Vec<usize> = Vec::new();
-        let mut last_ctrl_change_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_prog_change_per_channel: Vec<Option<Message>> = Vec::new();
+        // volumes and programs, as set on a channel and as last given to a voice
+        let mut volume_per_channel: Vec<Option<u8>> = Vec::new();
+        let mut program_per_channel: Vec<Option<u8>> = Vec::new();
         let mut last_pitch_bend_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_ctrl_change_per_voice: Vec<Option<Message>> = Vec::new();
-        let mut last_prog_change_per_voice: Vec<Option<Message>> = Vec::new();
+        let mut volume_per_voice: Vec<Option<u8>> = Vec::new();
+        let mut program_per_voice: Vec<Option<(bool, u8)>> = Vec::new();
         let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
         let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
         let mut active_notes: Vec<HashMap<u8, usize>> = Vec::new();
-        let mut last_percussion_instr = 0;
         for _ in 0..self.channels.len() {
             last_abs_time.push(0);
             curr_event_idx.push(0);
-            last_ctrl_change_per_channel.push(None);
-            last_prog_change_per_channel.push(None);
+            volume_per_channel.push(None);
+            program_per_channel.push(None);
             last_pitch_bend_per_channel.push(None);
             active_notes.push(HashMap::new());
         }
         for voice in 0..self.voices.len() {
-            last_ctrl_change_per_voice.push(None);
-            last_prog_change_per_voice.push(None);
+            volume_per_voice.push(None);
+            program_per_voice.push(None);
             last_pitch_bend_per_voice.push(None);
             last_channel_per_voice.push(
                 self.channels
@@ -482,31 +482,41 @@ impl MidiHandler {
                             active_notes[ch].insert(note, next_voice);
                             let messages = &mut self.voices[next_voice].messages;
                             if ch != last_channel_per_voice[next_voice].unwrap_or(0xff) {
-                                last_ctrl_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_prog_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
                                 last_pitch_bend_per_channel.get(ch).unwrap().as_ref()
                                     .map(|event| messages.push((event.clone(), abs_time)));
                                 last_channel_per_voice[next_voice] = Some(ch);
                             };
-                            if ch == 9 {
-                                let instr = if is_snare(note) { SNARE } else { CYMBAL };
-                                if last_percussion_instr != instr {
-                                    let prog_change = (
-                                        Message::MidiEvent {
-                                            delta_time,
-                                            event: MidiEvent::ProgramChange {
-                                                ch: ch as u8,
-                                                program: instr,
-                                            }
-                                        },
-                                        abs_time
-                                    );
-                                    last_prog_change_per_channel[ch] = Some(prog_change.0.clone());
-                                    messages.push(prog_change);
-                                    last_percussion_instr = instr;
+                            if let Some(volume) = volume_per_channel[ch] {
+                                if volume_per_voice[next_voice] != Some(volume) {
+                                    messages.push((Message::MidiEvent {
+                                        delta_time,
+                                        event: MidiEvent::ControlChange {
+                                            ch: ch as u8,
+                                            control: 7,
+                                            data: volume,
+                                        }
+                                    }, abs_time));
+                                    volume_per_voice[next_voice] = Some(volume);
+                                }
+                            }
+                            let program = if ch == 9 {
+                                Some(if is_snare(note) { SNARE } else { CYMBAL })
+                            } else {
+                                program_per_channel[ch]
+                            };
+                            if let Some(program) = program {
+                                if program_per_voice[next_voice] != Some((ch == 9, program)) {
+                                    messages.push((Message::MidiEvent {
+                                        delta_time,
+                                        event: MidiEvent::ProgramChange {
+                                            ch: ch as u8,
+                                            program,
+                                        }
+                                    }, abs_time));
+                                    program_per_voice[next_voice] = Some((ch == 9, program));
                                 }
+                            }
+                            if ch == 9 {
                                 messages.push((Message::MidiEvent {
                                     delta_time,
                                     event: MidiEvent::NoteOn {
@@ -527,43 +537,30 @@ impl MidiHandler {
                             None => (),
                         }
                     }
-                    MidiEvent::ControlChange { ch, control, .. } => {
+                    MidiEvent::ControlChange { ch, control, data } => {
                         let ch = ch as usize;
                         let mut pushed_to_base = false;
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
                             if control == 7 {
-                                last_ctrl_change_per_voice[voice] = Some(next_event.0.clone());
+                                volume_per_voice[voice] = Some(data);
                             }
                             if voice == self.channels[ch].base_voice {
                                 pushed_to_base = true;
                             }
                         }
-                        if !pushed_to_base {
-                            self.voices[self.channels[ch].base_voice]
-                                .messages
-                                .push(next_event.clone());
-                        }
                         if control == 7 {
-                            last_ctrl_change_per_channel[ch] = Some(next_event.0.clone());
-                        }
-                    }
-                    MidiEvent::ProgramChange { ch, .. } => {
-                        let ch = ch as usize;
-                        let mut pushed_to_base = false;
-                        for &voice in active_notes[ch].values() {
-                            self.voices[voice].messages.push(next_event.clone());
-                            last_prog_change_per_voice[voice] = Some(next_event.0.clone());
-                            if voice == self.channels[ch].base_voice {
-                                pushed_to_base = true;
-                            }
-                        }
-                        if !pushed_to_base {
+                            // a voice without a note of the channel gets it with the next note
+                            volume_per_channel[ch] = Some(data);
+                        } else if !pushed_to_base {
                             self.voices[self.channels[ch].base_voice]
                                 .messages
                                 .push(next_event.clone());
                         }
-                        last_prog_change_per_channel[ch] = Some(next_event.0.clone());
+                    }
+                    MidiEvent::ProgramChange { ch, program } => {
+                        // voices get it with the next note of the channel
+                        program_per_channel[ch as usize] = Some(program);
                     }
                     MidiEvent::ChannelPressure { ch, .. } => {
                         let ch = ch as usize;
-- 
2.43.0


From d8a9cae48b89d2c9dcb9c7334f9e312a04f1023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 21/33] fix: a tempo change during a rest takes effect where it
 stands, not at the start of the rest

---
 src/nspc/track.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 23ce1e7..5dac940 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -131,6 +131,14 @@ impl Track {
                             + (data[1] as u32) * 0x100
                             + (data[2] as u32);
                         let bpm = (6e7 / (usec_per_beat as f32)).ceil();
+                        if note_start.is_none() {
+                            last_note_end = Track::insert_rest(
+                                &mut commands,
+                                last_note_end,
+                                abs_time.min(max_time),
+                                ticks_per_beat,
+                            );
+                        }
                         commands.push(ParameterizedCommand::new(
                             None,
                             None,
-- 
2.43.0


From b9ddcb5d66c28c72c3b27d60af9cabf986f8b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 22/33] fix: a song with too many channels at once is refused
 at once instead of after an exponential search

---
 src/midi/mod.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 9895cfe..9222c13 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -213,6 +213,24 @@ impl MidiHandler {
                 }
             }
         }
+        // if more channels than voices sound at once, searching for base voices is pointless (and long)
+        let mut changes: Vec<(u32, i32)> = Vec::new();
+        for interval in self.channels.iter().flat_map(|channel| &channel.intervals) {
+            if interval.voices > 0 {
+                changes.push((interval.start, 1));
+                changes.push((interval.end, -1));
+            }
+        }
+        changes.sort();
+        let mut active = 0;
+        for (_, change) in changes {
+            active += change;
+            if active > self.voices.len() as i32 {
+                Err(MidiError::CouldntFit {
+                    path: path.to_str().unwrap().to_owned(),
+                })?;
+            }
+        }
         let active_base_intervals = vec![
             vec![],
             vec![],
@@ -274,6 +292,11 @@ impl MidiHandler {
         if channel_idx == self.channels.len() {
             return Ok(());
         }
+        if self.channels[channel_idx].intervals.iter().all(|interval| interval.voices == 0) {
+            // any voice will do for a channel without notes
+            self.channels[channel_idx].base_voice = 0;
+            return self.find_base_voices(channel_idx + 1, active_base_intervals, path, verbose);
+        }
         if verbose {
             println!("find base voice for channel {}", channel_idx);
         }
-- 
2.43.0


From f46fdc94111971532d07f6474739f2172f62d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 23/33] fix: do not write pitch slides of time 0, which leave
 the next note at the wrong pitch

---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 5dac940..c31fb92 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -200,7 +200,7 @@ impl Track {
                                 abs_time,
                                 ticks_per_beat,
                             );
-                            if portamento && !commands.is_empty() {
+                            if portamento && port_time > 0 && !commands.is_empty() {
                                 let pitch_slide: Option<ParameterizedCommand>;
                                 {
                                     let last_command = commands.last();
-- 
2.43.0


From 975d09495fa9b3bd39bdfc76dd7e3742fb6ad73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 24/33] fix: portamento of a channel applies to its own notes
 only, on whatever voice

---
 src/midi/mod.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 9222c13..0e32bc6 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -11,6 +11,9 @@ mod reader;
 
 const SNARE_NOTE: u8 = 68;
 
+// portamento time (high and low part), portamento on or off
+const PORTAMENTO_CONTROLS: [u8; 3] = [5, 37, 65];
+
 fn is_snare(note: u8) -> bool {
     note == 38 || note == 40
 }
@@ -368,12 +371,14 @@ impl MidiHandler {
         let channels = &self.channels;
         let mut last_abs_time: Vec<u32> = Vec::new();
         let mut curr_event_idx: Vec<usize> = Vec::new();
-        // volumes and programs, as set on a channel and as last given to a voice
+        // volumes, programs and portamento controls, as set on a channel and as last given to a voice
         let mut volume_per_channel: Vec<Option<u8>> = Vec::new();
         let mut program_per_channel: Vec<Option<u8>> = Vec::new();
+        let mut portamento_per_channel: Vec<[u8; 3]> = Vec::new();
         let mut last_pitch_bend_per_channel: Vec<Option<Message>> = Vec::new();
         let mut volume_per_voice: Vec<Option<u8>> = Vec::new();
         let mut program_per_voice: Vec<Option<(bool, u8)>> = Vec::new();
+        let mut portamento_per_voice: Vec<[u8; 3]> = Vec::new();
         let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
         let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
         let mut active_notes: Vec<HashMap<u8, usize>> = Vec::new();
@@ -382,12 +387,14 @@ impl MidiHandler {
             curr_event_idx.push(0);
             volume_per_channel.push(None);
             program_per_channel.push(None);
+            portamento_per_channel.push([0; 3]);
             last_pitch_bend_per_channel.push(None);
             active_notes.push(HashMap::new());
         }
         for voice in 0..self.voices.len() {
             volume_per_voice.push(None);
             program_per_voice.push(None);
+            portamento_per_voice.push([0; 3]);
             last_pitch_bend_per_voice.push(None);
             last_channel_per_voice.push(
                 self.channels
@@ -522,6 +529,20 @@ impl MidiHandler {
                                     volume_per_voice[next_voice] = Some(volume);
                                 }
                             }
+                            for (i, &control) in PORTAMENTO_CONTROLS.iter().enumerate() {
+                                let data = portamento_per_channel[ch][i];
+                                if portamento_per_voice[next_voice][i] != data {
+                                    messages.push((Message::MidiEvent {
+                                        delta_time,
+                                        event: MidiEvent::ControlChange {
+                                            ch: ch as u8,
+                                            control,
+                                            data,
+                                        }
+                                    }, abs_time));
+                                    portamento_per_voice[next_voice][i] = data;
+                                }
+                            }
                             let program = if ch == 9 {
                                 Some(if is_snare(note) { SNARE } else { CYMBAL })
                             } else {
@@ -562,6 +583,11 @@ impl MidiHandler {
                     }
                     MidiEvent::ControlChange { ch, control, data } => {
                         let ch = ch as usize;
+                        if let Some(i) = PORTAMENTO_CONTROLS.iter().position(|&c| c == control) {
+                            // voices get it with the next note of the channel
+                            portamento_per_channel[ch][i] = data;
+                            continue;
+                        }
                         let mut pushed_to_base = false;
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
-- 
2.43.0


From 4973efc03e156915ce16f17625b92a3dc1c0fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 25/33] fix: remember dead ends in the search for base voices,
 so that a song that cannot fit is refused without an exponential search

---
 src/midi/mod.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 0e32bc6..4b1d34e 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -244,7 +244,7 @@ impl MidiHandler {
             vec![],
             vec![],
         ];
-        self.find_base_voices(0, &active_base_intervals, path, verbose)?;
+        self.find_base_voices(0, &active_base_intervals, &mut HashSet::new(), path, verbose)?;
         self.channels_to_voices(path, verbose)?;
         Ok(())
     }
@@ -289,6 +289,7 @@ impl MidiHandler {
         &mut self,
         channel_idx: usize,
         active_base_intervals: &Vec<Vec<VoiceInterval>>,
+        dead_ends: &mut HashSet<Vec<Vec<usize>>>,
         path: &Path,
         verbose: bool,
     ) -> Result<(), Error> {
@@ -298,7 +299,14 @@ impl MidiHandler {
         if self.channels[channel_idx].intervals.iter().all(|interval| interval.voices == 0) {
             // any voice will do for a channel without notes
             self.channels[channel_idx].base_voice = 0;
-            return self.find_base_voices(channel_idx + 1, active_base_intervals, path, verbose);
+            return self.find_base_voices(channel_idx + 1, active_base_intervals, dead_ends, path, verbose);
+        }
+        if !dead_ends.is_empty()
+            && dead_ends.contains(&self.blocked_channels(channel_idx, active_base_intervals))
+        {
+            Err(MidiError::CouldntFit {
+                path: path.to_str().unwrap().to_owned(),
+            })?;
         }
         if verbose {
             println!("find base voice for channel {}", channel_idx);
@@ -336,7 +344,7 @@ impl MidiHandler {
             let mut active_base_intervals = active_base_intervals.clone();
             active_base_intervals[voice]
                 .extend_from_slice(self.channels[channel_idx].intervals.as_slice());
-            match self.find_base_voices(channel_idx + 1, &active_base_intervals, path, verbose) {
+            match self.find_base_voices(channel_idx + 1, &active_base_intervals, dead_ends, path, verbose) {
                 Ok(_) => {
                     self.channels[channel_idx].base_voice = voice;
                     return Ok(());
@@ -344,11 +352,36 @@ impl MidiHandler {
                 Err(_) => (),
             }
         }
+        dead_ends.insert(self.blocked_channels(channel_idx, active_base_intervals));
         Err(Error::from(MidiError::CouldntFit {
             path: path.to_str().unwrap().to_owned(),
         }))
     }
 
+    // for each voice the channels, from the given one on, that cannot use it: all that matters
+    // for whether those channels can be given voices
+    fn blocked_channels(
+        &self,
+        channel_idx: usize,
+        active_base_intervals: &Vec<Vec<VoiceInterval>>,
+    ) -> Vec<Vec<usize>> {
+        let mut blocked: Vec<Vec<usize>> = active_base_intervals
+            .iter()
+            .map(|intervals| {
+                (channel_idx..self.channels.len())
+                    .filter(|&i| {
+                        MidiHandler::overlapping_interval(&self.channels[i].intervals, intervals)
+                            .is_some()
+                    })
+                    .collect()
+            })
+            .collect();
+        blocked.sort();
+        // which channel it is for
+        blocked.push(vec![channel_idx]);
+        blocked
+    }
+
     fn overlapping_interval(
         channel: &Vec<VoiceInterval>,
         active_intervals: &Vec<VoiceInterval>,
-- 
2.43.0


From d2c19db2470984b3bd849c439c666d5b2c93e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 26/33] fix: report a MIDI file too long for 32-bit times
 instead of playing its end too early

---
 src/midi/mod.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 4b1d34e..01e42ce 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -33,6 +33,16 @@ enum MidiError {
     CouldntFit { path: String },
 }
 
+// times are kept in 32 bits, both in MIDI ticks and in driver ticks, of which a beat has 24
+fn later(abs_time: u32, delta_time: u32, ticks_per_beat: u16) -> Result<u32, Error> {
+    let time = abs_time as u64 + delta_time as u64;
+    ensure!(
+        time < u32::max_value() as u64 && time * 24 / (ticks_per_beat as u64) < u32::max_value() as u64,
+        "MIDI read error: song too long"
+    );
+    Ok(time as u32)
+}
+
 fn channel(event: &MidiEvent) -> usize {
     match *event {
         MidiEvent::NoteOff { ch, .. } => ch as usize,
@@ -169,7 +179,7 @@ impl MidiHandler {
             self.ticks_per_beat > 0 && self.ticks_per_beat < 0x8000,
             "MIDI read error: unsupported time division"
         );
-        self.tracks_to_channels(verbose);
+        self.tracks_to_channels(verbose)?;
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
@@ -249,7 +259,7 @@ impl MidiHandler {
         Ok(())
     }
 
-    fn tracks_to_channels(&mut self, verbose: bool) {
+    fn tracks_to_channels(&mut self, verbose: bool) -> Result<(), Error> {
         for (i, track) in self.tracks.iter().enumerate() {
             if verbose {
                 println!("extracting events from midi track {}", i);
@@ -258,20 +268,20 @@ impl MidiHandler {
             for message in &track.messages {
                 match *message {
                     Message::MetaEvent { delta_time, .. } => {
-                        abs_time += delta_time;
+                        abs_time = later(abs_time, delta_time, self.ticks_per_beat)?;
                         self.channels[0].messages.push((message.clone(), abs_time));
                     }
                     Message::MidiEvent {
                         delta_time,
                         ref event,
                     } => {
-                        abs_time += delta_time;
+                        abs_time = later(abs_time, delta_time, self.ticks_per_beat)?;
                         self.channels[channel(event)]
                             .messages
                             .push((message.clone(), abs_time));
                     }
                     Message::SysExEvent { delta_time, .. } => {
-                        abs_time += delta_time;
+                        abs_time = later(abs_time, delta_time, self.ticks_per_beat)?;
                         self.channels[0].messages.push((message.clone(), abs_time));
                     }
                     _ => {}
@@ -283,6 +293,7 @@ impl MidiHandler {
                 .messages
                 .sort_by_key(|&(ref event, abs_time)| (abs_time, priority(event)));
         }
+        Ok(())
     }
 
     fn find_base_voices(
-- 
2.43.0


From ee282be24ab57e89052c9f94bbfc6b81f8fe495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:14 +0000
Subject: [PATCH 27/33] fix: a very slow tempo no longer becomes tempo 0, which
 stops the song

---
 src/nspc/track.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index c31fb92..fbb6672 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -143,7 +143,8 @@ impl Track {
                             None,
                             None,
                             None,
-                            Command::Tempo((bpm * tempo_factor) as u8),
+                            // a tempo of 0 would stop the song
+                            Command::Tempo(((bpm * tempo_factor) as u8).max(1)),
                         ))
                     }
                 }
-- 
2.43.0


From 652425b79fe549a41ae4f678f8996797994bf5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:14 +0000
Subject: [PATCH 28/33] fix: ChannelVolumeFade takes a time and a target, as
 the sound driver reads both

---
 src/nspc/command.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 65626f7..3a3a1e8 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -109,7 +109,7 @@ pub enum Command {
     Tremolo(u8, u8, u8),
     TremoloOff,
     ChannelVolume(u8),
-    ChannelVolumeFade(u8),
+    ChannelVolumeFade(u8, u8),
     CallLoop(usize, u8),
     VibratoFade(u8),
     PitchEnvelopeTo(u8, u8, u8),
@@ -201,9 +201,10 @@ impl Command {
                 out.write_u8(0xed)?;
                 out.write_u8(p1)?;
             }
-            Command::ChannelVolumeFade(p1) => {
+            Command::ChannelVolumeFade(p1, p2) => {
                 out.write_u8(0xee)?;
                 out.write_u8(p1)?;
+                out.write_u8(p2)?;
             }
             Command::CallLoop(p1, p2) => {
                 out.write_u8(0xef)?;
-- 
2.43.0


From 8d5a6d8b17583896c7edb2b71f122a5401a54141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:24 +0000
Subject: [PATCH 29/33] fix: a manifest with a tempoAdjust or loop of the wrong
 type is refused instead of getting the default

---
 src/manifest/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/manifest/mod.rs b/src/manifest/mod.rs
index 42b5853..7e00c2b 100644
--- a/src/manifest/mod.rs
+++ b/src/manifest/mod.rs
@@ -61,10 +61,14 @@ impl Song {
         }
         Song {
             input: Some(path_buf),
-            tempo_factor: input["tempoAdjust"]
-                .as_f64()
-                .unwrap_or(DEFAULT_TEMPO_ADJUST as f64) as f32,
-            loops: input["loop"].as_bool().unwrap_or(true),
+            tempo_factor: match &input["tempoAdjust"] {
+                Value::Null => DEFAULT_TEMPO_ADJUST,
+                value => value.as_f64().expect("tempoAdjust is not a number") as f32,
+            },
+            loops: match &input["loop"] {
+                Value::Null => true,
+                value => value.as_bool().expect("loop is not true or false"),
+            },
         }
     }
 
-- 
2.43.0


From 51dbfb62bd41b72502e8dda40dadd12ec03c4bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:24 +0000
Subject: [PATCH 30/33] fix: a command without a duration keeps the one before,
 instead of ending the track when its velocity changes

---
 src/nspc/command.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3a3a1e8..e3e797b 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -309,11 +309,9 @@ impl ParameterizedCommand {
         let mut velocity_sustain_out = prev_velocity_sustain;
         let mut duration_to_write = None;
         if let Some(duration) = self.duration {
-            if duration != prev_duration {
+            if duration > 0 && duration != prev_duration {
                 duration_out = duration;
-                if duration > 0 {
-                    duration_to_write = Some(duration);
-                }
+                duration_to_write = Some(duration);
             }
         }
         let mut velocity_sustain = None;
-- 
2.43.0


From 345b1254e486176831d1086ff8ccdeb8d3f0fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:24 +0000
Subject: [PATCH 31/33] fix: refuse JSON songs with values that would be
 written as other commands

---
 src/nspc/command.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index e3e797b..ec67b6e 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -305,6 +305,21 @@ impl ParameterizedCommand {
         prev_velocity_sustain: Option<u8>,
         call_loops: &mut Vec<CallLoopRef>,
     ) -> Result<(u8, Option<u8>), Error> {
+        // anything out of range would be read back as another command
+        ensure!(
+            self.duration.unwrap_or(0) <= 0x7f
+                && self.velocity.unwrap_or(0) <= 0x0f
+                && self.sustain.unwrap_or(0) <= 0x07,
+            "Duration, velocity or sustain out of range: {:?}",
+            self
+        );
+        if let Command::Note(note) = self.command {
+            ensure!(
+                note >= 0x80 && note <= 0xdf,
+                "Note out of range: {:?}",
+                self
+            );
+        }
         let mut duration_out = prev_duration;
         let mut velocity_sustain_out = prev_velocity_sustain;
         let mut duration_to_write = None;
@@ -350,6 +365,12 @@ impl ParameterizedCommand {
         if let Some(duration) = duration_to_write {
             out.write_u8(duration)?;
         } else if velocity_sustain_to_write.is_some() {
+            // they can only be written after a duration
+            ensure!(
+                prev_duration > 0 && prev_duration <= 0x7f,
+                "Velocity or sustain without a duration: {:?}",
+                self
+            );
             out.write_u8(prev_duration)?;
         }
         if let Some(velocity_sustain) = velocity_sustain_to_write {
-- 
2.43.0


From 7ccb580e33d99f97a81697c157b5eb21f04a5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:24 +0000
Subject: [PATCH 32/33] fix: a call of an empty loop no longer sends the driver
 to address 0

---
 src/nspc/command.rs | 7 +++++++
 src/nspc/mod.rs     | 3 ++-
 src/nspc/track.rs   | 4 ++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index ec67b6e..2d0c1cc 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -442,6 +442,13 @@ impl ParameterizedCommand {
         }
     }
 
+    pub fn calls(&self, track_idx: usize) -> bool {
+        match self.command {
+            Command::CallLoop(target_track, _) => target_track == track_idx,
+            _ => false,
+        }
+    }
+
     pub fn is_slide(&self) -> bool {
         match self.command {
             Command::PitchSlide(..) => true,
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 63c0ad5..210c65a 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -188,7 +188,8 @@ impl Song {
         call_loops: &mut Vec<CallLoopRef>,
     ) -> Result<(), Error> {
         let track = &self.tracks[track_idx];
-        if !track.commands.is_empty() {
+        // a loop that is called has to end somewhere, even an empty one
+        if !track.commands.is_empty() || self.tracks.iter().any(|track| track.calls(track_idx)) {
             if self.parts.iter().any(|part| part.tracks[0] == track_idx) {
                 out.write(&PREAMBLE_TRACK_0)?;
             } else if self
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index fbb6672..ffd90d1 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -313,6 +313,10 @@ impl Track {
         })
     }
 
+    pub fn calls(&self, track_idx: usize) -> bool {
+        self.commands.iter().any(|cmd| cmd.calls(track_idx))
+    }
+
     pub fn write(
         &self,
         out: &mut Cursor<Vec<u8>>,
-- 
2.43.0


From 6bf844c777138d7b10729eaa9cb7de690446b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:17 +0000
Subject: [PATCH 33/33] fix: refuse JSON songs with loops in loops or without
 repetitions, which the driver ends early

---
 src/nspc/command.rs | 10 ++++++++++
 src/nspc/mod.rs     |  8 +++++++-
 src/nspc/track.rs   |  4 ++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 2d0c1cc..e099d4e 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -320,6 +320,9 @@ impl ParameterizedCommand {
                 self
             );
         }
+        if let Command::CallLoop(_, count) = self.command {
+            ensure!(count > 0, "Loop without repetitions: {:?}", self);
+        }
         let mut duration_out = prev_duration;
         let mut velocity_sustain_out = prev_velocity_sustain;
         let mut duration_to_write = None;
@@ -442,6 +445,13 @@ impl ParameterizedCommand {
         }
     }
 
+    pub fn is_call(&self) -> bool {
+        match self.command {
+            Command::CallLoop(..) => true,
+            _ => false,
+        }
+    }
+
     pub fn calls(&self, track_idx: usize) -> bool {
         match self.command {
             Command::CallLoop(target_track, _) => target_track == track_idx,
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 210c65a..1b5d4cb 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -188,8 +188,14 @@ impl Song {
         call_loops: &mut Vec<CallLoopRef>,
     ) -> Result<(), Error> {
         let track = &self.tracks[track_idx];
+        let called = || self.tracks.iter().any(|track| track.calls(track_idx));
+        ensure!(
+            !track.has_calls() || !called(),
+            "Track {} is called as a loop and calls another one",
+            track_idx
+        );
         // a loop that is called has to end somewhere, even an empty one
-        if !track.commands.is_empty() || self.tracks.iter().any(|track| track.calls(track_idx)) {
+        if !track.commands.is_empty() || called() {
             if self.parts.iter().any(|part| part.tracks[0] == track_idx) {
                 out.write(&PREAMBLE_TRACK_0)?;
             } else if self
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index ffd90d1..4cbddfd 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -313,6 +313,10 @@ impl Track {
         })
     }
 
+    pub fn has_calls(&self) -> bool {
+        self.commands.iter().any(|cmd| cmd.is_call())
+    }
+
     pub fn calls(&self, track_idx: usize) -> bool {
         self.commands.iter().any(|cmd| cmd.calls(track_idx))
     }
-- 
2.43.0

