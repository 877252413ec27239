"""What each check runs: models, generators of histories, operations expected."""
import gens as G
import gens_midi as GM
import gens_style as GS
import gens_trans as GT
import gens_bass as GB
import gens_desc as GD
from runner import Model
from convert import patternTest, densityTest, bassTest, codecTest, pairTest, exportTest, mappingTest, heapTest, styleTest, \
    descriptorTest, rhythmTest, chordTest, viewTest, gridTest, spellTest, fileTest, jsonTest, historyTest, learnTest, beatsTest


def P(quick, thorough):
    return lambda tier: quick if tier == "quick" else thorough


def psm(name, ops, scales=((1, 1), (3, 1), (4, 1)), limit=(2500, 30000), quick=None, thorough=None, **consts):
    """the state machine of one pattern, restricted to some operations: each of its steps from each of its initial
    states is a test of the code"""
    base = dict(OnsetSet={0, 1, 3}, DurSet={1, 2, 4}, Vels={80}, MaxEv=2, PatDurs={4, 7}, Steps={2, 3}, Times={0, 1, 3},
                Depth=1, Emit=True, Generate=True, Covering=True)
    base.update(consts)
    base["Ops"] = set(ops)

    def make(tier):
        c = dict(base)
        c.update((quick if tier == "quick" else thorough) or {})
        voices = c.pop("Voices", "VoiceTagTuple")
        return Model("MC", c, ["WellFormed"], ["NothingLengthens"], action_constraints=["EmitTest"],
                     overrides={"Voices": voices}, name=name, limit={"quick": limit[0], "thorough": limit[1]},
                     convert=lambda t, rng: patternTest(t, rng, scales))
    return make


def models(*makers):
    return lambda tier: [m(tier) for m in makers]


PROPS = {}

PROPS["C01"] = dict(
    models=models(psm("insertion", ["addEvent", "durToLast", "durToBar", "lastNoteOff"], Voices="VoiceOne",
                      OnsetSet={0, 1, 2, 3}, DurSet={1, 2, 4}, Depth=1, PatDurs={0, 2, 7}, Steps={2, 3, 4}, Covering=False)),
    gens=[(G.insertions, 2500, 40000), (G.bars, 1000, 20000)],
    ops=["new", "addEvent", "durToLast", "lastNoteOff", "durToBar"])
PROPS["C02"] = dict(
    models=models(psm("splitting", ["split"], OnsetSet={0, 1, 2, 3, 5}, DurSet={1, 2, 3, 5}, Steps={1, 2, 3, 4}, PatDurs={5, 6, 10},
                      Voices="VoiceOne", scales=((1, 1), (3, 1), (10, 1)), limit=(3000, 40000))),
    gens=[(G.splits, 2500, 40000), (G.longSplits, 400, 6000)],
    ops=["split"])
PROPS["C03"] = dict(
    models=models(psm("windows", ["window", "activeAt", "startingAt", "contains"], Times={0, 1, 2, 3, 4, 5}, Steps={1, 2, 3},
                      scales=((1, 1), (4, 1)), limit=(4000, 40000))),
    gens=[(G.windows, 3000, 50000)],
    ops=["window", "activeAt", "startingAt", "contains"])
PROPS["C04"] = dict(
    models=models(psm("overlaps", ["removeOverlapped"], OnsetSet={0, 1, 2}, DurSet={1, 2, 4}, MaxEv=3, Voices="VoiceTwo",
                      PatDurs={6}, scales=((1, 1), (3, 1)), limit=(4000, 40000))),
    gens=[(G.overlaps, 4000, 60000)],
    ops=["removeOverlapped"])
PROPS["C05"] = dict(
    models=models(psm("silences", ["fillSil"], OnsetSet={0, 1, 2, 4}, DurSet={1, 2, 3}, PatDurs={7, 8}, Steps={1, 2, 3}, Voices="VoiceTwo",
                      limit=(4000, 40000))),
    gens=[(G.silences, 3500, 60000)],
    ops=["fillSil"])
PROPS["C06"] = dict(
    models=models(psm("legato", ["legato", "fillPrev"], OnsetSet={0, 1, 2, 4}, DurSet={1, 2, 4}, PatDurs={6, 8}, MaxEv=2, Voices="VoiceThree",
                      limit=(4000, 40000), thorough=dict(MaxEv=3, OnsetSet={0, 1, 3}, DurSet={1, 3}))),
    gens=[(G.legatos, 3500, 60000)],
    ops=["legato", "fillPrev"])
PROPS["C07"] = dict(
    models=models(psm("grids", ["quantize", "align"], OnsetSet={0, 1, 2, 3, 5}, DurSet={1, 2, 3, 5}, Steps={2, 3, 4}, PatDurs={6, 10},
                      Voices="VoiceTwo", scales=((1, 1), (4, 1)), limit=(4000, 40000))),
    gens=[(G.quantizes, 2000, 30000), (G.aligns, 2500, 40000)],
    ops=["quantize", "align", "cutInSteps"])
PROPS["C08"] = dict(
    models=models(psm("selections", ["withTags", "withPitch", "tagsPitches"], OnsetSet={0, 1}, DurSet={1}, PatDurs={3}, MaxEv=2,
                      Voices="VoiceTags", scales=((1, 1),), limit=(5000, 40000))),
    gens=[(G.selections, 3500, 60000)],
    ops=["withTags", "withPitch", "tagsPitches", "copyNoEv"])
PROPS["C09"] = dict(
    models=models(psm("removals", ["removeEvent", "removeByTags", "identical", "compare"], OnsetSet={0, 1}, DurSet={1}, PatDurs={3}, MaxEv=2,
                      Voices="VoiceTags", scales=((1, 1),), limit=(5000, 40000), thorough=dict(MaxEv=3, OnsetSet={0}))),
    gens=[(G.removals, 3500, 60000), (G.equalities, 800, 12000)],
    ops=["removeEvent", "removeByTags", "identical", "compare", "patEq"])
ISOLATION = {"otherPatternChanged", "otherViewpointChanged", "exactlyInOrder", "equal", "sharedEventShown", "notACopy", "copies", "sourceUnchanged", "pure", "sameObjects",
             "keepsObjects", "edit"}


def heapSM(tier):
    return Model("HeapSM", dict(Depth=3, MaxRegs=3, Emit=True), ["NoDangling", "ShareOnPurpose"],
                 ["Isolation", "QueriesChangeNothing", "CopiesAreEqual"], action_constraints=["EmitTest"], name="heap",
                 limit={"quick": 2000, "thorough": 20000}, convert=heapTest)


PROPS["C10"] = dict(
    models=models(heapSM),
    gens=[(G.heaps, 3500, 60000), (G.slices, 1200, 20000)], modules=["ops_desc"],
    clauses=ISOLATION,
    ops=["copy", "window", "withTags", "withPitch", "fillSil", "split", "copyNoEv", "json", "pickle", "edit", "editMeta", "patEq",
         "listing", "grid", "compare", "identical", "activeAt", "stretch", "transpose", "quantize", "editSlice", "editVp", "viewpoint", "describe"])
PROPS["C11"] = dict(
    models=models(psm("stretching", ["stretch", "transpose"], scales=((2, 1), (4, 1), (6, 1)), Voices="VoiceThree", limit=(3000, 30000))),
    gens=[(G.stretches, 3000, 50000), (G.pitches, 200, 3000)],
    ops=["stretch", "transpose"])
HISTORY = ["addEvent", "durToLast", "durToBar", "split", "window", "removeOverlapped", "fillSil", "legato", "fillPrev", "quantize", "align",
           "withTags", "removeEvent", "removeByTags", "stretch", "transpose"]


def historySM(tier):
    depth, num = (10, 700) if tier == "quick" else (20, 8000)
    return Model("HistorySM", dict(Ops=set(HISTORY), OnsetSet={0, 1, 3}, DurSet={1, 2, 4}, Vels={80}, MaxEv=2, PatDurs={4, 7}, Steps={2, 3},
                                   Times={0, 1, 3}, Depth=depth, Emit=True, Generate=True, Covering=True, MaxLength=40, MaxNotes=8),
                 ["HWellFormed"], ["NotesAreThere", "QuestionsChangeNothing"], action_constraints=["EmitHistory"],
                 overrides={"Voices": "VoiceTags"}, simulate=(num, 2 * depth + 2), spec="HSpec", name="histories", limit={"quick": 700, "thorough": 8000},
                 convert=historyTest)


PROPS["C26"] = dict(
    models=models(historySM),
    gens=[(G.histories, 2500, 40000)],
    ops=["addEvent", "removeEvent", "removeByTags", "stretch", "quantize", "align", "fillSil", "legato", "fillPrev", "removeOverlapped",
         "transpose", "durToLast", "durToBar", "split", "json", "pickle", "window", "withTags", "patEq"])

gridSM = lambda tier: tests("GridSM", (dict(OnsetSet={0, 1, 2, 3}, DurSet={1, 2, 3}, MaxEv=2, Lengths={0, 5}, Blocks={1, 2}, TagSet={"s:a", "s:silence"}),
                                       dict(MaxEv=3, OnsetSet={0, 1, 2, 4}, Blocks={1, 2, 3}, TagSet={"s:a", "s:b"})),
                            ["NeverBlank", "OneMeaning", "NoMoreThanThere", "ReadBack", "SilencesHidden"], ["VoicesApart"], gridTest, (1500, 20000), "grids")(tier)
PROPS["C27"] = dict(models=models(gridSM), gens=[(G.prints, 2500, 40000)], ops=["printed", "listing"])

MIDI = ["ops_midi"]


def midiSM(name, invariants, convert, limit, pools, **consts):
    """tracks written message after message; pools: of messages, and how many at most, for each tier"""
    def make(tier):
        pool, most = pools[tier]
        return Model("MidiSM", dict(dict(Dts={0, 1}, Emit=True), MaxMsgs=most, **consts), ["ReaderFollows"] + invariants, [],
                     action_constraints=["EmitTest"], overrides={"Pool": pool}, name=name, limit=dict(zip(("quick", "thorough"), limit)), convert=convert)
    return make


codecSM = midiSM("codec", ["Incremental", "ReadBack", "RunningIsShorter", "EndsOnce", "NoPrefixIsAFile", "ValuesRoundTrip", "TicksGrow"], codecTest,
                 (1100, 12000), {"quick": ("CodecPool", 2), "thorough": ("CodecPool", 3)}, Dts={0, 128})
pairSM = midiSM("pairs", ["OnePerNoteOn", "EndsAfterStarts", "NoEndingTwice", "OpenIfUnended", "NotesWithinFile", "WholeBars", "PitchesApart"], pairTest,
                (3000, 30000), {"quick": ("OneNotePool", 4), "thorough": ("NotePool", 4)})


def exportSM(tier):
    return Model("ExportSM", dict(OnsetSet={0, 1, 2, 3}, DurSet={1, 2}, Keys={60, 61}, Vels={1, 100} if tier == "thorough" else {100},
                                  MaxNotes=3, Lengths={0, 4, 7}, Res=96, Emit=True),
                 ["RoundTrip", "LengthKept", "Discerning"], action_constraints=["EmitTest"], name="exports",
                 limit={"quick": 1500, "thorough": 16000}, convert=exportTest)


def mappingSM(tier):
    return Model("MappingSM", dict(MaxEntries=2, MaxConds=1 if tier == "quick" else 2, Emit=True), ["Unfiltered", "OnlyTagged", "TracksApart"],
                 ["Grows"], action_constraints=["EmitTest"], name="mappings", limit={"quick": 1100, "thorough": 20000}, convert=mappingTest)


PROPS["C13"] = dict(models=models(exportSM), gens=[(GM.exports, 2500, 40000)], modules=MIDI, ops=["midiExport"])
PROPS["C14"] = dict(models=models(pairSM), gens=[(GM.pairings, 2500, 40000)], modules=MIDI, ops=["midiImport"])
PROPS["C15"] = dict(models=models(mappingSM), gens=[(GM.mappings, 1800, 30000), (GM.collections_, 400, 6000), (GM.datasets, 300, 5000)],
                    modules=MIDI, ops=["midiImport", "midiCollection", "dataset"])
PROPS["C16"] = dict(models=models(codecSM), gens=[(GM.reads, 1200, 20000), (GM.writes, 1200, 20000), (GM.sweeps, 120, 2000)], modules=MIDI,
                    ops=["midiRead", "midiWrite"])

DESC = ["ops_desc"]


def tests(module, consts, invariants, properties, convert, limit, name):
    """a state machine whose steps are all printed as tests; consts: for both tiers, then those of the thorough one"""
    def make(tier):
        c = dict(consts[0], Emit=True)
        if tier == "thorough":
            c.update(consts[1])
        return Model(module, c, invariants, properties, action_constraints=["EmitTest"], name=name,
                     limit=dict(zip(("quick", "thorough"), limit)), convert=convert)
    return make


descriptorSM = tests("DescriptorSM", (dict(OnsetSet={0, 1}, DurSet={1, 3}, MaxEv=2, Lengths={4}, MaxUses=2), dict(Lengths={2, 5})),
                     ["Accepted", "OthersRefused", "SharedOut", "OrderIsFree", "TagsAtMostEvents"], ["Grows"], descriptorTest, (1200, 20000), "descriptors")
rhythmSM = tests("RhythmSM", (dict(FirstSizes=set(range(1, 9)), Sizes={1, 2, 3}, MaxUses=2), dict(FirstSizes=set(range(1, 10)), Sizes={1, 2, 3, 4, 5, 6})),
                 ["Weights", "ZeroIfUniform", "OnlyWhatSounds", "Bounded", "LongNote"], [], rhythmTest, (1500, 20000), "rhythms")
chordSM = tests("ChordSM", (dict(DurSet={1, 2}, Roots={0}, MaxNotes=3, Lengths={2, 5}), dict(MaxNotes=4, Roots={0, 1, 5})),
                ["Transposed", "Octaves", "AnyOrder", "Units", "Shared", "SilencesApart", "Forced", "ItsOwnBest"], [], chordTest, (700, 9000), "chords")
viewSM = tests("ViewSM", (dict(OnsetSet={0, 1, 3}, DurSet={1, 2, 4}, MaxEv=2, Lengths={4, 7}, Widths={1, 2, 3}), dict(MaxEv=3, DurSet={1, 4})),
               ["NeverEmpty", "InOrder", "Whole", "PerOnset", "All"], [], viewTest, (1500, 20000), "viewpoints")
jsonSM = tests("JsonSM", (dict(OnsetSet={0, 1}, DurSet={1, 3}, MaxEv=2, Lengths={0, 3}, Depth=4), dict(OnsetSet={0, 1, 2}, Depth=5)),
               ["IndexesWithin", "Loaded", "EitherWay", "Longest"], [], jsonTest, (1500, 20000), "documents")
PROPS["C12"] = dict(
    models=models(jsonSM),
    gens=[(G.roundtrips, 3000, 40000), (G.legacy, 400, 6000)],
    ops=["json", "pickle", "legacyJson"])
PROPS["C17"] = dict(models=models(descriptorSM, rhythmSM), gens=[(GD.descriptors, 4000, 60000)], modules=DESC, ops=["describe", "drumSpace"])
PROPS["C18"] = dict(models=models(chordSM), gens=[(GD.chords, 3000, 50000)], modules=DESC, ops=["describe"])
PROPS["C19"] = dict(models=models(viewSM), gens=[(GD.viewpoints, 2500, 40000), (GD.chordifies, 300, 5000)], modules=DESC,
                    ops=["viewpoint", "splitViewpoint", "chordify"])

STYLE = ["ops_style"]


def styleSM(what, limit, n=3, most=2, orders=(0, 1, 2)):
    def make(tier):
        return Model("StyleSM", dict(TagSet={"s:a", "s:b"}, N=n, Orders=set(orders), MaxGiven=most, Emit=True),
                     ["RowsAddUp", "EveryPatternCounts", "OrderOfPatterns", "Twice", "StatesAreThoseGiven", "GivenCanComeBack", "WalkIsLearnt"],
                     action_constraints=["EmitTest"], name="styles of %d steps" % n, limit=dict(zip(("quick", "thorough"), limit)), convert=styleTest(what))
    return make


def styles(what, limit):
    long = [styleSM(what, limit, n=2, most=4, orders=(0, 1)), styleSM(what, limit, n=4, most=1, orders=(0, 1, 2, 3))]
    return lambda tier: [m(tier) for m in [styleSM(what, limit)] + (long if tier == "thorough" else [])]


PROPS["C20"] = dict(models=styles("learn", (800, 12000)), gens=[(GS.learning, 1200, 20000)], modules=STYLE, ops=["learn", "styleQueries"])
PROPS["C21"] = dict(models=styles("generate", (200, 3000)), gens=[(GS.generation, 250, 3000)], modules=STYLE, ops=["generate"])
PROPS["C22"] = dict(models=styles("save", (300, 5000)), gens=[(GS.saving, 500, 8000), (GS.databases, 700, 10000)], modules=STYLE,
                    ops=["saveStyle", "unlearnt", "dbStyle", "dbGenerate", "dbSave"])

def densitySM(tier):
    n = 3 if tier == "quick" else 4
    return Model("DensitySM", dict(TagSet={"a", "b"} if tier == "quick" else {"a"}, N=n, Den=4, Nums={0, 1, 4, 6} if tier == "quick" else {0, 1, 2, 3, 4, 5, 6, 7, 8, 9},
                                   Depth=2 if tier == "quick" else 3, Emit=True),
                 ["NeverBoth", "OneIsTheOriginal", "ZeroIsEmpty", "ReachedInv"], ["Monotone"], action_constraints=["EmitTest"],
                 name="densities", limit={"quick": 1500, "thorough": 20000}, convert=lambda t, rng: densityTest(t, rng, n))


TRANS = ["ops_trans"]
PROPS["C23"] = dict(models=models(densitySM), gens=[(GT.densities, 1200, 20000), (GT.sameSteps, 300, 5000)], modules=TRANS,
                    ops=["density", "densityNone"])

BASS = ["ops_bass"]
learnSM = tests("LearnSM", (dict(Pool={8, 3}, Kicks={8, 0}, Sizes={1, 3}, Depth=2), dict(Sizes={1, 2, 3})),
                ["Counted", "Accepted", "OthersRefused", "Circular"], ["Forgets"], learnTest, (800, 12000), "bass models")
beatsSM = tests("BeatsSM", (dict(Units={4, 6, 7, 8}, Beats={1, 2}, Depth=2), dict(Units={3, 4, 6, 7, 8, 12}, Beats={1, 2, 3})),
                ["Accepted", "OthersRefused", "OneIdPerLine", "ReadAgain"], [], beatsTest, (1200, 20000), "beats")
PROPS["C24"] = dict(models=models(learnSM, beatsSM), gens=[(GB.learning, 1500, 20000), (GB.beats, 1500, 20000), (GB.corpora, 40, 400)], modules=BASS,
                    engines=["py3"], ops=["bassModel", "bassBeats", "bassCorpus", "bassDictionary"])


def bassSM(tier):
    return Model("BassSM", dict(Pool={0, 8, 10}, Lines=1, Lengths={2, 3}, Beats={2, 3}, Emit=True) if tier == "quick" else
                 dict(Pool={0, 8, 10}, Lines=1, Lengths={2, 3, 4}, Beats={2, 3, 4}, Emit=True),
                 ["NeverStuck", "Sound", "Complete"], [], action_constraints=["EmitTest"], name="bass lines",
                 limit={"quick": 1000, "thorough": 15000}, convert=bassTest)


PROPS["C25"] = dict(models=models(bassSM), gens=[(GB.constraints, 1500, 20000), (GB.generation, 500, 6000), (GB.draws, 60, 600)], modules=BASS,
                    engines=["py3"], ops=["bassConstrain", "bassVary", "bassGenerate", "bassDraw"])

spellSM = tests("SpellSM", (dict(Roots=set(range(0, 40)), Steps={5, 6, 11, 12, 17, 23}, MaxNotes=2), dict(MaxNotes=4)),
                ["OneNameEach", "SameMeaning", "Inverts", "Octaves", "Spells", "TypesSound"], ["Higher"], spellTest, (3800, 40000), "spellings")
PROPS["C28"] = dict(models=models(spellSM), gens=[(G.spellings, 800, 10000)], modules=["ops_spell"],
                    ops=["spellClass", "spellChord", "spellPitch", "pitchTables"])




filesSM = tests("FilesSM", (dict(Stems={1, 3, 4}, Endings={1, 2, 3}, Places={1}, MaxFiles=2), dict(Stems={1, 2, 3, 4}, Places={1, 2})),
                ["OnlyThere", "Whole", "EitherSuffix", "EitherPlace", "FoundAgain", "Ordered", "MatchesItself", "MatchesBothWays"], ["NoOthers"],
                fileTest, (2500, 40000), "searches")
PROPS["C29"] = dict(models=models(filesSM), gens=[(G.fileSearches, 1500, 20000)], modules=["ops_files"], ops=["search", "matchNames"])
