#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
GP, GIO, MIO = "gsapi/gspattern.py", "gsapi/gsio.py", "gsapi/midiio.py"
GD, GS, GT, GB = "gsapi/gsdescriptors.py", "gsapi/gsstyles.py", "gsapi/gstransformers.py", "gsapi/bassmine.py"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "A pattern's duration always covers its events",
     "Adding an event to a pattern keeps every event already there and sets the duration to the latest end of any event when that is later than the duration, leaving it alone otherwise. Asking for the last note-off gives the latest end of any event (nothing for an empty pattern), and setting the duration from it only grows the pattern unless shrinking is explicitly allowed. Rounding the duration to the bar gives the smallest whole number of bars, in beats of the time signature's numerator, that is not shorter than the duration.",
     ["inputs", "histories"], "every sequence of insertions, in any order and with overlapping or nested events, every duration and every time signature numerator",
     "The tests build a few patterns by hand with events in order; none nests a long event under later ones or inserts out of order.",
     [GP], [("addEvent, durationToLastEvent, lastNoteOff, durationToBar", GP)],
     [("duration", "length of the pattern in beats", GP), ("events", "the list of events", GP)], ["pattern duration and events after each call"])

prop("C02", "Splitting a pattern into equal slices loses and invents nothing",
     "Splitting a pattern whose duration covers its events into slices of a given length gives, in time order, one slice per window that has sound (and an empty entry for the others when asked to keep them), each with that length and its own start time. Every event appears, with its pitch, velocity and tag, as exactly the pieces its time span leaves in each window, timed from the start of the window, so that putting the slices back end to end covers the same time for the same notes. When copies are asked for, the split pattern and its events are left as they were.",
     ["inputs"], "every pattern, slice length (whether or not it divides the duration or is an exact binary fraction), event order, and every event spanning any number of windows",
     "Tests split MIDI corpora only at bar length, and only look at whether the result is a valid pattern.",
     [GP], [("splitInEqualLengthPatterns (recursive cut of an event at each window)", GP)], observe=["list of slices", "the original pattern"])

prop("C03", "Time windows and point queries return exactly the events concerned",
     "Extracting a time window gives copies of exactly the events that start in it, from its start included to its end excluded, timed from its start, cut at its end when trimming is asked for and left whole otherwise, in a pattern of that start and length; the source does not change. Asking what is active at a time gives exactly the events that have started and not yet ended by then. Asking what starts at a time gives exactly the events whose onset is at most the tolerance before it and not after it.",
     ["inputs"], "every pattern and every time, window and tolerance, in particular on onsets, ends and window boundaries",
     "No existing test calls the window extraction or the queries on boundaries; they are used inside others only at bar positions.",
     [GP], [("patternFromTimeSlice, activeEventsAtTime, getStartingEventsAtTime", GP), ("Event.containsTime, Event.endTime", GP)], observe=["returned events and pattern"])

prop("C04", "Removing overlaps leaves each voice monophonic and silences no onset",
     "After overlaps are removed, events of the same voice (same tag, or same pitch when asked for) never overlap, and events of different voices do not affect one another. For each voice and each onset there is exactly one event left, which is one of those that had this onset, with its own duration unless the next onset of the voice comes earlier, in which case it ends there. Nothing else of the events or the pattern changes, and doing it again changes nothing.",
     ["inputs"], "every pattern: any number of events, equal onsets, nested and chained overlaps, events of other voices in between, any order in the list",
     "Tests only check that imported MIDI corpora have no overlap afterwards; they do not see lost onsets, wrong durations or duplicates.",
     [GP], [("removeOverlapped", GP)], observe=["events after the call"])

prop("C05", "Silence filling adds exactly the gaps, cut at the maximum length",
     "Filling with silences adds silence events over exactly the time between zero and the pattern's duration in which nothing sounds, or nothing of a given tag sounds when filling per tag, and keeps every other event as it was. A gap longer than the maximum silence length is cut into pieces of that length from its start, plus one shorter piece for what remains; otherwise it is one event. Silences have the tag and pitch asked for and no velocity, and the variant that returns a filled pattern leaves the source unchanged.",
     ["inputs"], "every pattern including overlapping, nested and unordered events and leading or trailing gaps; every maximum length, per tag or not, with tags that contain one another",
     "The one test uses four fixed events and does not look at cut gaps, per-tag filling or overlapping events.",
     [GP], [("fillWithSilences, getFilledWithSilences", GP)], observe=["events after the call"])

prop("C06", "Legato closes every gap of a voice without moving or shortening anything",
     "Applying legato, by pitch or by tag, only lengthens events: in each voice whatever sounds from an onset is prolonged, if it stops earlier, to the next onset of that voice, or to the end of the pattern after the last one. It never shortens or moves an event, never makes one overlap the next onset when it did not before, and treats a voice independently of the others. Filling with the previous event makes every event last exactly until the next onset of the whole pattern, or its end.",
     ["inputs"], "every pattern in any event order, with chords, overlaps and nested events, both ways of choosing voices",
     "The legato test only checks corpora for gaps after tag legato, and currently cannot run to its end.",
     [GP], [("applyLegato, fillWithPreviousEvent", GP)], observe=["events after the call"])

prop("C07", "Quantizing and grid alignment move events to the nearest grid step",
     "Quantizing moves each onset to a nearest multiple of the step and each duration to a nearest multiple that is at least one step, as far as asked for onsets and durations separately, and changes nothing else. Aligning on a grid puts each event on its nearest step with the duration of one step, drops those that land at or after the end of the pattern, repeats events with a repeatable tag (by default silence) on each step they last, and leaves exactly one event per tag and step that was reached.",
     ["inputs"], "every pattern, step size and combination of options, including steps that are not exact fractions of the beat, notes shorter than half a step and several events landing on one step",
     "No test checks the positions that quantization or alignment produce.",
     [GP], [("quantize", GP), ("alignOnGrid, cutInSteps", GP)], observe=["events after the call"])

prop("C08", "Tag and pitch selection return exactly the matching events, in order",
     "Selecting the events with a tag, with one of a list of tags, or satisfying a condition on the tag gives exactly those events in their order, the selection without them gives exactly the others, and selecting by pitch gives exactly the events of that pitch; when the search is not exact a tag also matches the tuple tags that contain it. The result keeps the duration, tempo, time signature, key, name and resolution of the source, its events are copies or the very same ones according to what was asked for, and the source does not change. The sets of all tags and all pitches are exactly those of the events.",
     ["inputs"], "every pattern with string, tuple and mixed tags, every kind of query and both copy modes",
     "Tests use selection only as a step of others on imported drum patterns, with single string tags.",
     [GP], [("getPatternWithTags, getPatternWithoutTags, getPatternWithPitch", GP), ("getAllTags, getAllPitches, copyWithoutEvents", GP)], observe=["returned pattern", "identity of its events"])

prop("C09", "Removing and comparing events affects exactly the events that match",
     "Removing an event removes every event equal to it in time, duration, pitch, velocity and tag, and removing by tags removes every event that has one of these tags as its tag or among its tuple of tags; all the other events stay in their order. Looking for identical events returns exactly those with the same tag, or with a tag in common when that is enough. Two events are equal exactly when all five of these are, and two patterns when their events, duration, time signature and start time are.",
     ["inputs"], "every pattern with duplicates, adjacent matches, tags that contain other tags as text, tuple tags and tuples that share elements",
     "No test calls removal or the identity queries.",
     [GP], [("removeEvent, removeByTags", GP), ("getIdenticalEvents, hasCommonTagWith, hasOneOfTags, allTagsAreEqualWith, __eq__", GP)], observe=["events after the call", "returned values"])

prop("C10", "Copies are independent and queries never change what they look at",
     "Whatever is later done to a copy, a slice, a selection made with copies, a silence-filled version or a transformed version of a pattern never shows in the pattern it came from nor in any other pattern, and the other way round. Queries, descriptors, exports and comparisons leave the events and the other data of the patterns they are given as they were, up to the order of events in the list and to a duration too short for the events, which may grow to cover them. Selections that share events on purpose show changes in both.",
     ["histories"], "every history of operations over several patterns derived from one another, interleaving edits of any of them with queries and exports",
     "Tests never edit a derived pattern and then look at its source; aliasing shows only in particular sequences.",
     [GP, GIO, GD], [("copy, copyWithoutEvents, makeCopy arguments, deepcopy", GP), ("getFilledWithSilences", GP)],
     [("patterns in use", "a set of patterns whose events may or may not be shared", GP)], ["all the patterns after each step of a history"])

prop("C11", "Time-stretching and transposing are exact and invertible",
     "Time-stretching multiplies every onset, every duration and the length of the pattern by the ratio and changes nothing else, so that stretching by a ratio and then by its inverse gives the pattern back. Transposing adds the interval to every pitch, leaves times and velocities alone, and tags every event with the name and octave of its new pitch (60 is C4). Intervals add up, so that transposing back restores the pitches.",
     ["inputs", "histories"], "every pattern, ratio and interval, and sequences of them; every MIDI pitch",
     "The stretch test checks one ratio on corpora and can currently not run to its end; no test transposes.",
     [GP, "gsapi/gsutil.py", "gsapi/gsdefs.py"], [("timeStretch, transpose", GP), ("pitch2name", "gsapi/gsutil.py")], observe=["events after the call"])

prop("C12", "Patterns survive a JSON or pickle round trip",
     "Saving a pattern to JSON and loading it gives its name, duration, tempo, time signature, events in order with their times, pitch, velocity and tag, and its viewpoints with theirs, whether or not tags are indexed and tuples hinted. Pickling gives all of this and the remaining data. Saving does not change the pattern otherwise than a query may, and JSON files with several tag indexes per event load as tuples of these tags.",
     ["inputs", "configurations"], "every pattern, with string, tuple and numeric tags, repeated tags, viewpoints of viewpoints, empty patterns; every combination of options",
     "The stable test round-trips corpora without tag indexing and compares little; indexed tags, the default, were never read back.",
     [GP, GIO], [("toJSONDict, fromJSONDict", GP), ("toJSONFile, fromJSONFile, toPickleFile, fromPickleFile", GIO)], observe=["loaded pattern", "file"])

prop("C13", "Exporting a pattern to MIDI and importing it back preserves the music",
     "A pattern in which no two notes of one pitch overlap, exported to MIDI and imported again, has the same notes: pitch, velocity and times within half a tick of its resolution, the same length within half a tick (or the end of its last note if that is later), and the same tempo within a microsecond per beat, time signature, key and resolution. When a mapping from tags to pitches is given, each note gets the pitch of its tag and keeps its own pitch if its tag is not mapped. The file is a complete, well-formed standard MIDI file whose single track carries the name of the pattern and ends with its end-of-track, and the file has the name asked for, or else that of the pattern, to which .mid is added unless it is there.",
     ["inputs"], "every such pattern at every resolution, tempo, signature and key; notes that touch, any order of events, off-grid times and large files",
     "The round-trip test compares a few fields of corpora files and does not see ticks, tempo drift, names, mappings or notes that touch.",
     [GIO, MIO], [("toMidiFile, fromMidiFile", GIO), ("FileWriter, FileReader, SetTempoEvent, TimeSignatureEvent, KeySignatureEvent", MIO)], observe=["bytes of the file", "imported pattern"])

prop("C14", "MIDI import pairs every note-on with the note-off that ends it",
     "Importing a MIDI file gives one event per note-on of velocity above zero, at its time in beats and with its pitch and velocity, lasting until the note-off, or note-on of velocity zero, of its pitch and tag that ends it; such a message ends the most recently started note still sounding that it can end, and one that can end none is ignored. Notes never ended last until the end of the file. Times in beats are ticks divided by the resolution, the length is the latest end of the tracks read, or the bar that ends with or after the last ended note when none of these tracks tells its end, and the tempo, time signature and key are those of the file, with 120 and 4/4 when it has none.",
     ["inputs", "histories"], "every interleaving of note-ons, note-offs and velocity-zero note-ons over pitches, channels and tracks, including stray and missing note-offs, zero-length notes and running status",
     "Tests import well-formed corpora and check that the result is valid, not that the notes are those of the file.",
     [GIO, MIO], [("__fromMidiFormat: search of the open note", GIO), ("__metaEventsFromMidiFile", GIO)],
     [("open notes", "events whose note-off has not been seen", GIO)], ["imported pattern"])

prop("C15", "Mappings and track choices decide the tags and notes imported from MIDI",
     "A note gets as tag the label whose conditions (pitch, channel or either) it satisfies, the tuple of all such labels if there are several, or its pitch name when pitch names are asked for; a note that satisfies none is left out, or kept with an empty tag when unmapped notes are kept. Only the tracks asked for by index or by name are read, all of them if none is, and when tags come from track names the notes of a track get the labels contained in its name. Reading a collection or a dataset gives one pattern per matching file, or its slices of the length asked for, with the same rules, and never changes the mapping given.",
     ["inputs", "configurations"], "every mapping mixing integers, pairs, wildcards and lists, every set of tracks with or without names, every choice of options",
     "Tests use two fixed drum maps on corpora with one track.",
     [GIO, "gsapi/gsdataset.py"], [("__tagFromMidiNote, __tagsFromMidiNoteAndChannel, __tagFromTrackName", GIO), ("fromMidiCollection", GIO), ("Dataset", "gsapi/gsdataset.py")], observe=["imported patterns", "the mapping afterwards"])

prop("C16", "Reading and writing MIDI files loses no message and no tick",
     "Every sequence of channel, meta and complete system-exclusive messages with any delta times written to a file is a well-formed standard MIDI file that holds exactly these messages, and reading a well-formed file gives exactly the messages it holds, with or without running status, with meta events of any length and header padding. Delta times up to the format's limit are exact, and turning ticks from relative to absolute and back changes nothing. Tempo, time signature, key, pitch bend and the values of channel messages read back as set. A copy of a message is equal to it but for what it was asked to change, and can be changed on its own; the beginning of a track, taken as a slice, still knows whether its ticks are relative.",
     ["inputs"], "every sequence of messages of every type and channel, every delta time from 0 to 2^28-1, every number of tracks",
     "Tests only read files written by one or two programs; nothing checks bytes, large delta times or rarer messages.",
     [MIO], [("read_varlen, write_varlen", MIO), ("FileReader.parse_midi_event, FileWriter.encode_midi_event (running status)", MIO), ("make_ticks_abs, make_ticks_rel", MIO)],
     [("running status", "last status byte of the track", MIO)], ["bytes", "events"])

prop("C17", "Descriptors are exact, whatever they were used for before",
     "Density is the total duration of the events whose tag is included and not ignored, and the number of tags is the count of their distinct tags; silence is ignored by default. Syncopation is the sum, over the steps where something sounds and nothing does at the next one (cyclically), of the absolute difference of their metrical weights, the weight of a step being the number of binary subdivision levels it lies on. A descriptor gives the same value for a pattern whatever it was used for before, and never changes the pattern.",
     ["inputs", "histories"], "every pattern and choice of tags, every power-of-two length, and every sequence of patterns given to one descriptor object",
     "Tests compute each on one or two fixed patterns with a new descriptor object.",
     [GD], [("Density, NumberOfTags", GD), ("Syncopation (weights kept between calls)", GD)], [("weights", "metrical weights kept by the descriptor", GD)], ["value returned"])

prop("C18", "The chord descriptor names the best matching root and chord type",
     "The chord of a pattern is the pair of root and type that maximises the match with how long each pitch class sounds: 0.8 for each unit of time of a pitch class of the chord, minus 1 for each of the others, minus half the pattern's length for each missing chord note, ties being free. It depends only on how long pitch classes sound: not on octaves, the order of events, or silences, and transposing the pattern transposes the root. A pattern in which nothing sounds is a silence; only major and minor are considered when asked for, and all the best ones are returned, one root for each type, when duplicates are allowed.",
     ["inputs"], "every set of notes, including single notes, clusters and patterns far longer than their notes, in every transposition and octave, and all the chord types",
     "One test checks a handful of four-note chords of full length.",
     [GD, "gsapi/gsdefs.py"], [("Chord.getDescriptorForPattern, convolveWithPitchProfile, findBestScoreForProfiles, findMaxAndIdx", GD), ("chordTypes, defaultPitchNames", "gsapi/gsdefs.py")], observe=["tag returned"])

prop("C19", "A viewpoint has one event per slice, tagged with the slice's descriptor",
     "Generating a viewpoint gives a pattern with one event for each slice that has events: each window of the given length, each distinct onset with what sounds at it, or the whole pattern. Each event has the start and length of its slice, its tag is what the descriptor gives for exactly the events of that slice, and it refers to that slice. The viewpoint is stored under its name, refers to its source, has its length and tempo, and generating it does not change the source, up to the order of its events.",
     ["inputs"], "every pattern, slicing and descriptor, including windows that cut events, rests, and events that sound through several onsets",
     "The viewpoint tests cannot currently run to their end and only look at whether patterns are valid.",
     [GP, GD], [("generateViewpoint", GP), ("splitInEqualLengthPatterns, activeEventsAtTime", GP)], observe=["viewpoint pattern", "source pattern"])

prop("C20", "A Markov style learns exactly the observed transition frequencies",
     "The probability a style of some order gives to a set of tags at a step, after the sets of tags of the preceding steps (wrapping at the end of the loop), is the number of times this continuation was observed in the patterns given, divided by the number of times that past was observed at this step; what was not observed is absent. Where nothing sounds the state is silence, and simultaneous tags are a set. The patterns given are not changed, their order does not matter, and the states and matrices reported for a step are those of its table, and the matrices shown are these, or their sum for the whole loop.",
     ["inputs"], "every list of loop-length patterns, order and number of steps, with chords, rests, off-grid events and patterns repeated",
     "Tests check that rows sum to one on corpora, not that the numbers are the frequencies observed.",
     [GS, GP], [("PatternMarkov.buildTransitionTable, formatPattern, getLastEvents, _buildTupleForEvents", GS), ("alignOnGrid, fillWithSilences", GP)],
     [("transitionTable", "probability of each state at each step after each past", GS)], ["transition table", "getMatrixAtStep, getPossibleInStatesAtStep, getPossibleOutStatesAtStep"])

prop("C21", "Markov generation produces only, and any of, what was learnt",
     "A generated pattern has the length of the loop and one event of one step for each tag at each step, such that each step was observed, at that place in the loop, after the steps before it. Each observed continuation can be produced, with the probability learnt for it. The same seed gives the same pattern from the same style, and generation works for every style learnt from at least one pattern and never changes it.",
     ["inputs", "histories"], "every learnt style, order and seed, and every state generation can be in",
     "Tests only generate from one corpus with one seed and look at validity; probabilities and reachability need many draws and an exact table.",
     [GS], [("PatternMarkov.generatePattern, _generateEventAtStep", GS)], [("events so far", "the states generated for the steps so far", GS)], ["generated pattern"])

prop("C22", "Styles survive being saved and loaded",
     "Saving a style to JSON or pickle and loading it into a new one gives a style with the same knowledge: parameters and transition probabilities for a Markov style, patterns for a style made of patterns. A style tells that it is built exactly when it has been given or has loaded something to generate from. A style made of patterns returns its patterns: the current one, the successive ones in order, or one of them at random (the same one for the same seed).",
     ["inputs", "histories"], "every style, built or not, and every sequence of saving, loading and generating",
     "No test saves or loads a style.",
     [GS], [("BaseStyle.saveToJSON, loadFromJSON, saveToPickle, loadFromPickle", GS), ("getInternalState, setInternalState, isBuilt", GS), ("DatabaseStyle", GS)], observe=["loaded style"])

prop("C23", "The density transformer reaches the density asked for, whatever came before",
     "For each tag, a density from 0 to 1 keeps that share of the steps where the tag starts in the original, to the nearest number of steps, and one from 1 to 2 keeps them all and adds the share above 1 of its free steps, whatever sequence of densities was asked for before. What is kept or restored are notes of the original at their step, what is added are notes of that tag, with at most one note of a tag per step; asking again for the last pattern only adds notes of a tag or only removes some. The result has the length of the original, which is not changed, and tags whose density is not given keep theirs.",
     ["inputs", "histories"], "every pattern, number of steps, mode and sequence of density changes, crossing 1 in both directions, reaching 0 and 2 and beyond",
     "The one test draws a single random density per tag and checks that the result is valid.",
     [GT], [("AgnosticDensity.updateNormalizedDensities, addEventForTag, removeEventForTag", GT), ("buildDensityMap, createCurrentState", GT)],
     [("currentState", "notes, silences, added and removed steps of each tag", GT)], ["transformed pattern"])

prop("C24", "The bass model learns exactly the observed frequencies",
     "The bass model's initial, temporal and interlocking probabilities are the observed counts of first beats, of pairs of successive beats taken cyclically, and of simultaneous kick and bass beats, divided by their total in each row; rows never observed stay zero. Normalising may be repeated and followed by more learning, and the result is always that of all that was learnt. Each beat is represented by which of its quarter positions are nearest to an onset, and its sparse form lists exactly the non-zero entries. The rhythm model and the pitch model (whose states are intervals, 12 standing for none) hold the same probabilities.",
     ["inputs", "histories"], "every sequence of learning and normalising steps with beat patterns of any length, every onset position",
     "No test uses the bass model.",
     [GB], [("MarkovModel.add_temporal, add_interlocking, normalize_model, normalize", GB), ("binaryBeatPattern, translate_rhythm, markov_tm_2dict", GB)],
     [("support matrices", "observed counts", GB)], ["matrices"])

prop("C25", "Constrained bass lines always complete and respect their constraints",
     "The model constrained by a kick pattern, or by the beats of a bass line to keep, admits at each beat exactly the beat patterns from which the remaining beats can be completed by learnt transitions satisfying the constraints, with the learnt probabilities renormalised, so that generation never gets stuck and every such completion is possible. Generated bass lines are made of learnt beats and transitions, satisfy the constraints (learnt simultaneity with the kick; kept beats kept), and have the length asked for, limited to that of the kick pattern. Drawing an index from a list of probabilities gives each index as often as its probability says.",
     ["inputs", "histories"], "every learnt model, every kick pattern or set of beats to keep that can be satisfied, every length, every random choice",
     "No test uses the bass generator; dead ends show only for particular models several beats ahead.",
     [GB], [("constrainMM, variationMM, arc consistency", GB), ("generateBassRhythm, generateBassRhythmVariation", GB)],
     [("domains", "the states and continuations allowed at each beat", GB)], ["constrained model", "generated pattern"])

prop("C26", "Any history of edits leaves a pattern that the specification allows",
     "Whatever edits are applied one after another to a pattern (adding, removing, stretching, quantizing, aligning, silence filling, legato, overlap removal, transposing, slicing, saving and loading), each has the effect specified for it on the pattern the previous ones left. Events always have a positive duration, a hashable tag and onsets that are not negative, and nothing but adding, filling or stretching makes the pattern longer. Two equal patterns that undergo the same edits stay equal.",
     ["histories", "programs"], "every sequence of edits with any arguments from any initial pattern",
     "Tests apply at most one or two operations to a fresh pattern; errors left by an earlier operation (order, sharing, lengths) only show in a later one.",
     [GP, GIO], [("all the operations of Pattern", GP), ("toJSONFile, fromJSONFile, toPickleFile, fromPickleFile", GIO)],
     [("pattern", "events, duration and other data", GP)], ["pattern after each step"])

prop("C27", "Printed and listed forms show exactly what a pattern holds",
     "Printing a pattern as a grid gives one row for each of its tags, with one sign for each whole step of its duration: a start where a note of the tag sounds that did not sound at the step before, a continuation where the note of the step before still sounds, and nothing where no note of the tag sounds; silences never show. The text of a pattern has one line for each event, in order, with its tag, pitch, velocity, time and duration to four decimals, after its name, duration, tempo, time signature and key. Its list form has the pitch, time and duration of each event in order. None of this changes the pattern.",
     ["inputs"], "every pattern, with any tags and any order of events, and every size of the steps",
     "No test prints a pattern; whether a row is right depends on how notes, steps and gaps fall on one another.",
     [GP], [("printASCIIGrid, __repr__ of Pattern and Event, patternToList", GP)], observe=["standard output", "repr(pattern)", "the list"])

prop("C28", "Notes and chords are spelled by the base-40 pitch number line",
     "A chord spelled from a root has the notes that its successive intervals reach on the base-40 line, in any octave, and the named chords have the letters and accidentals that music theory gives them and sound the pitch classes of the chord type of that name. A pitch class, of any octave or sign, is spelled with the natural note that it is or else with the accidental asked for, and its place on the line is that of its spelling. A MIDI pitch is named by its pitch class and octave (60 is C4) with the names given, and the tables of notes and of keys agree with this. Nothing given is changed.",
     ["inputs"], "every root, list of intervals, chord name, pitch class, accidental, pitch and list of names",
     "No test spells a chord; the tables of intervals, chord types, note names and keys have no test that compares them.",
     ["gsapi/gsutil.py", "gsapi/gsdefs.py"], [("makeChord, pc2note, pc2base40, pitch2name", "gsapi/gsutil.py"),
     ("chordIntervals, chordTypes, noteMap, midiKey, pitch40, defaultPitchNames", "gsapi/gsdefs.py")], observe=["returned names and numbers", "the tables"])

prop("C29", "File searches and matches find exactly the files concerned",
     "search_files returns, sorted and once each, exactly the files that end with the suffix asked for (or one of the suffixes, or all of them when there is none), out of the visible files of a folder, of a file given by its name, or of a list of such places; a place that does not exist is an IOError. match_files returns, in the order given, exactly those names of a list whose base name, without the folder and the suffix ignored, is the same, and that end with the suffix asked for. strip_suffix removes a suffix that is there and nothing else. Names are taken literally, whatever characters they have, and nothing given is changed.",
     ["inputs"], "every folder tree, list of places, suffix, list of suffixes, and list of names, including names with spaces, dots and brackets",
     "No test calls these functions.",
     ["gsapi/gsutil.py"], [("search_files, match_files, strip_suffix", "gsapi/gsutil.py")], observe=["returned names", "exceptions"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
