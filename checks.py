"""Which harnesses decide which property, with which bounds."""
ENV = ["the C library's stream, heap, printf, character class and search functions behave as modelled in harness/env.c (the same model is compiled natively for every replay)",
       "allocation succeeds up to 2^40 bytes unless the harness injects a failure",
       "the compiler's LLVM IR at -O0 (after mem2reg and simplifycfg) is what the code means; undefined behaviour is reported, not assumed away"]
def D(s):
    d = {}
    for x in (s.split(",") if s else []):
        k, _, v = x.partition("=")
        d[k] = v or None
    return d
def J(name, harness, q, t=None, labels="", bounds="", time=(100, 700), **kw):
    """q/t: defines of the quick and thorough run"""
    return dict(name=name, harness=harness, defs={"quick": D(q), "thorough": D(q if t is None else t)}, labels=labels.split(), bounds=bounds,
                time={"quick": time[0], "thorough": time[1]}, **kw)
CHECKS = {}
def C(prop, *jobs, level="model_checking", assumptions=()):
    CHECKS[prop] = dict(jobs=list(jobs), level=level, assumptions=ENV + list(assumptions))

BY = lambda n, t, labels: J("bytes", "h_read.c", "N=%d" % n, "N=%d" % t, labels, "every file of exactly N bytes (quick N=%d, thorough N=%d), all bytes symbolic" % (n, t))
MUT = lambda n, q, t, labels: J(n, "h_read.c", q, t, labels, "the encoding of " + NB % "hierarchy" + "; members of any kind anywhere, four consecutive bytes anywhere replaced by any others, TRAIL arbitrary bytes appended, with and without 16 further bytes behind that")
XB = "an application chunk of 44 declared sizes from 0 to 70001 whose handler reads up to 17 bytes, in every kind of group"
XS = lambda n, q, labels, **kw: J(n, "h_ext.c", q, None, labels, XB + ("; cut at any position" if "CUT=1" in q else "; the device fails at any position" if "CUT=2" in q else "").replace("44", "44") + (" (32 sizes up to 1000)" if "NBIG=9" in q else ""), steps=100000000, **kw)
NB = "every %s with up to NODES chunks, nesting up to DEPTH, up to KIDS members per group, up to RAWMAX data bytes; ids, types and data symbolic"
SH = "eleven large fixed shapes (up to 541 members and 270 shared-property groups wide, 142 levels deep, data of 65537 and 70001 bytes, every group kind in every allowed place) with symbolic ids, types and data"
SH9 = SH.replace("eleven large", "nine large").replace("up to 541 members and 270 shared-property groups wide, 142 levels deep, ", "")
SH7 = "seven fixed shapes (up to 41 members wide, 15 levels deep, every group kind in every allowed place) with symbolic ids, types and data"
CONFQ, CONFT = "CONF,NODES=4,DEPTH=3,KIDS=3,RAWMAX=2", "CONF,NODES=5,DEPTH=4,KIDS=3,RAWMAX=2"

# large inputs for the operations that only look at a hierarchy
def LARGE(): return [J("check-shapes", "h_check.c", "SHAPES,WIDETYPE", None, "conforming not-conforming", "checking " + SH + "; one group of another type", steps=100000000),
  J("compare-shapes", "h_compare.c", "SHAPES", None, "equal different", "comparing " + SH + "; one difference at one of eight places", steps=100000000),
  J("search-shapes", "h_search.c", "FORMS,SHAPES", None, "several set", "searching " + SH, steps=100000000),
  J("collect-crowd", "h_search.c", "CHUNKS,CROWD=300", None, "none one several", "collecting from up to CROWD members", steps=100000000),
  J("lookup-large", "h_prop.c", "BIG=300", None, "none own shared", "looking up properties through BIG enclosing groups, every fourth a list", steps=100000000)]
C("C01", BY(20, 24, "accepted refused read-conforming"),
  MUT("mutated", "MUT,NODES=2,DEPTH=3,KIDS=2,RAWMAX=1,TRAIL=1", "MUT,NODES=3,DEPTH=3,KIDS=2,RAWMAX=1,TRAIL=1", "accepted refused"),
  J("used", "h_file.c", "NODES=3,DEPTH=3,KIDS=3,RAWMAX=2,LATE,CONF", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=2,LATE,CONF", "read used", "the encoding of " + NB % "conforming hierarchy" + "; shared-property groups anywhere among the members of their list; checked, compared, searched, looked up, printed and written"),
  J("used-shapes", "h_file.c", "SHAPES,NOPRINT", None, "read used", SH, steps=100000000),
  XS("handlers", "SIZES", "read exact longer shorter"), XS("handlers-cut", "SIZES,NBIG=9,CUT=1", "refused", frontier=16),
  J("seekless", "h_read.c", "N=18,SEEKLESS", "N=22,SEEKLESS", "accepted refused", "every N-byte stream that cannot seek"),
  J("print-shapes", "h_print.c", "SHAPES,CAP=1500000", None, "", "printing " + SH + " (most data fixed, at most 2001 bytes)", steps=2000000000),
  J("print-long", "h_print.c", "LONGDATA,CAP=40000", None, "", "printing a chunk of 9..4097 bytes (34 sizes), one of them symbolic", steps=100000000),
  J("bulk", "h_bulk.c", "", None, "read checked written", "one data chunk of any size up to 2^31-33 bytes, followed by another chunk"))
C("C02", BY(20, 24, "parsed parsed-members"),
  J("files", "h_file.c", CONFQ, CONFT, "read several-members shared-properties", "the encoding of " + NB % "conforming hierarchy"),
  J("late-properties", "h_file.c", "LATE,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "LATE,NODES=5,DEPTH=3,KIDS=3,RAWMAX=1", "read late-properties", "the encoding of " + NB % "hierarchy of allowed composition" + "; shared-property groups anywhere among the members of their list"),
  MUT("mutated", "MUT,NODES=3,DEPTH=3,KIDS=2,RAWMAX=1,TRAIL=0", "MUT,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,TRAIL=0", "parsed parsed-members"),
  XS("handlers", "SIZES", "read exact longer shorter"),
  J("padding", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=3,PADSYM,TRAIL=2", "CONF,NODES=4,DEPTH=3,KIDS=3,RAWMAX=3,PADSYM,TRAIL=2", "read", "padding bytes and trailing bytes arbitrary"),
  J("anycomp", "h_file.c", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,ANYCOMP", "NODES=5,DEPTH=4,KIDS=3,RAWMAX=1,ANYCOMP", "read", "members of any kind anywhere, every id and type"),
  J("shapes", "h_file.c", "SHAPES", None, "read", SH, steps=100000000),
  J("bulk", "h_bulk.c", "", None, "read", "one data chunk of any size up to 2^31-33 bytes"))
C("C03", BY(20, 23, "refused accepted"),
  J("cut", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=2,CUT=1", "CONF,NODES=4,DEPTH=4,KIDS=3,RAWMAX=2,CUT=1", "refused", "every proper prefix of the encoding of " + NB % "conforming hierarchy"),
  J("ioerror", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=2,CUT=2", "CONF,NODES=4,DEPTH=4,KIDS=3,RAWMAX=2,CUT=2", "refused", "the device fails at every position"),
  J("late-cut", "h_file.c", "LATE,NODES=4,DEPTH=3,KIDS=2,RAWMAX=1,CUT=1", None, "refused late-properties", "every proper prefix; shared-property groups anywhere among the members of their list"),
  MUT("mutated", "MUT,NODES=3,DEPTH=3,KIDS=2,RAWMAX=1,TRAIL=0", "MUT,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,TRAIL=0", "refused parsed"),
  XS("handlers-cut", "SIZES,NBIG=9,CUT=1", "refused", frontier=16), XS("handlers-ioerror", "SIZES,NBIG=9,CUT=2", "refused", frontier=16),
  J("shapes-cut", "h_file.c", "SHAPES,NSHAPES=9,CUT=1", None, "refused", SH9 + "; cut at any position", steps=100000000, frontier=16),
  J("bulk-cut", "h_bulk.c", "CUT", None, "refused", "a data chunk of any size that ends early by any number of bytes"))
C("C04", BY(20, 23, "accepted refused"),
  XS("handlers", "SIZES", "read exact longer shorter"),
  MUT("mutated", "MUT,NODES=3,DEPTH=3,KIDS=2,RAWMAX=1,TRAIL=0", "MUT,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,TRAIL=0", "refused parsed"),
  J("late-properties", "h_file.c", "LATE,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "LATE,NODES=5,DEPTH=3,KIDS=3,RAWMAX=1", "read late-properties", "the encoding of " + NB % "hierarchy of allowed composition" + "; shared-property groups anywhere among the members of their list"),
  J("extents", "h_file.c", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=3,ANYCOMP,TRAIL=2,PADSYM", "NODES=4,DEPTH=4,KIDS=3,RAWMAX=4,ANYCOMP,TRAIL=2,PADSYM", "read", "trailing bytes arbitrary; members of any kind anywhere"),
  J("bulk", "h_bulk.c", "", None, "read", "one data chunk of any size up to 2^31-33 bytes"))
C("C05", XS("handlers", "SIZES", "written"), J("composed", "h_write.c", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=2,ANYCOMP", "NODES=5,DEPTH=4,KIDS=3,RAWMAX=2,ANYCOMP", "written shared-properties even-odd", NB % "composed hierarchy" + "; members of any kind"),
  J("how", "h_write.c", "NODES=3,DEPTH=3,KIDS=3,RAWMAX=2,HOW", None, "written", "through a stream, a file name and standard output"),
  J("slack", "h_write.c", "NODES=3,DEPTH=3,KIDS=3,RAWMAX=1,SLACK=3", "NODES=4,DEPTH=3,KIDS=2,RAWMAX=1,SLACK=3", "written", "every group may declare up to SLACK bytes more than its members take"),
  J("filler", "h_write.c", "SLACKS,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", None, "written", "the outermost group declares 0..70001 more bytes (21 values)", steps=100000000),
  J("shapes", "h_write.c", "SHAPES", None, "written", SH, steps=100000000),
  J("bulk", "h_bulk.c", "", None, "written", "one data chunk of any size up to 2^31-33 bytes"))
C("C06", XS("handlers", "SIZES", "written"), J("roundtrip", "h_write.c", CONFQ, CONFT, "written read-back shared-properties", NB % "conforming hierarchy"),
  J("how", "h_write.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=2,HOW", None, "read-back", "through streams, file names and the standard streams"),
  J("types", "h_write.c", "CONF,FULLTYPE,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "CONF,FULLTYPE,NODES=3,DEPTH=2,KIDS=2,RAWMAX=1", "read-back", "every valid form type", time=(100, 800)),
  J("shapes", "h_write.c", "CONF,SHAPES", None, "read-back", SH, steps=100000000))
C("C07", XS("handlers", "SIZES", "written"), J("handlers-tree", "h_ext.c", "NODES=4,DEPTH=3,KIDS=2", "NODES=5,DEPTH=3,KIDS=2", "several", NB % "hierarchy" + " with application chunks"), J("files", "h_file.c", CONFQ, CONFT, "rewritten several-members shared-properties", "the encoding of " + NB % "conforming hierarchy"),
  
  J("trail", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=3,TRAIL=2", None, "rewritten", "trailing bytes arbitrary"),
  J("shapes", "h_file.c", "CONF,SHAPES", None, "rewritten", SH, steps=100000000))
C("C08", J("faults", "h_write.c", "FAULT,NODES=3,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=60", "FAULT,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,FOPS=60", "fault-fd fault-file fault-stdout no-failure", NB % "composed hierarchy" + "; the device takes any number of bytes less than needed, any one operation fails, or a failure shows up when flushing or closing"),
  J("filler-faults", "h_write.c", "FAULT,SLACK=1,NODES=3,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=60", "FAULT,SLACK=2,NODES=3,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=60", "fault-fd fault-file fault-stdout", "the same with groups that declare more bytes than their members take"),
  J("filler-sizes", "h_write.c", "FAULT,SLACKS,NODES=1,DEPTH=2,KIDS=2,RAWMAX=1", None, "fault-fd fault-file fault-stdout", "0..70001 filler bytes (21 values)", steps=100000000),
  J("shapes", "h_write.c", "FAULT,SHAPES,NSHAPES=9", None, "fault-fd fault-file fault-stdout", SH9, steps=100000000, frontier=16),
  J("success", "h_write.c", "NODES=3,DEPTH=3,KIDS=3,RAWMAX=1,HOW", None, "written", "without any failure the report is success"))
C("C09", J("read", "h_prim.c", "READ", None, "", "every stream of 0..4 bytes"), J("write", "h_prim.c", "WRITE", None, "", "every value, every failing byte"))
C("C10", J("read", "h_prim.c", "FREAD", None, "", "every 32-bit size and position, every field type, every stream"), J("write", "h_prim.c", "FWRITE", None, "", "every 32-bit size and position, every field type, every value, every failing byte"))
C("C11", J("ids", "h_prim.c", "IDS", None, "", "all 2^32 ids"), J("types", "h_prim.c", "FTYPECHK", None, "", "every group type in a conformance check"))
C("C12", J("types", "h_prim.c", "FTYPES", None, "", "all 2^32 form types"), J("check", "h_prim.c", "FTYPECHK", None, "", "every form type in a conformance check"))
C("C13", J("handlers", "h_ext.c", "NODES=4,DEPTH=3,KIDS=2", "NODES=5,DEPTH=3,KIDS=2", "several", NB % "hierarchy" + " with application chunks; their handlers' answers count"), J("mixed", "h_check.c", "MIXED,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "MIXED,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "conforming not-conforming", NB % "hierarchy" + "; members of any kind anywhere; one chunk with any id and type", time=(100, 800)),
  J("types", "h_prim.c", "FTYPECHK", None, "", "every group type"),
  J("shapes", "h_check.c", "SHAPES,WIDETYPE", None, "conforming not-conforming", SH + "; one group of another type", steps=100000000))
C("C14", J("anysizes", "h_check.c", "ANYSIZES,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "ANYSIZES,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "conforming not-conforming", NB % "hierarchy of allowed composition" + "; every 32-bit declared size everywhere", time=(100, 800)),
  J("shapes", "h_check.c", "SHAPES,WIDESIZES,NSHAPES=9", None, "conforming not-conforming", SH9 + "; one chunk of any declared size", steps=100000000, frontier=16),
  J("bulk", "h_bulk.c", "", None, "checked", "one data chunk of any size up to 2^31-33 bytes, any single bit of the declared size wrong"))
C("C15", J("handlers", "h_ext.c", "NODES=4,DEPTH=3,KIDS=2", "NODES=5,DEPTH=3,KIDS=2", "several", NB % "hierarchy" + " with application chunks; their handlers' answers count"), J("pairs", "h_compare.c", "MEMBER,NODES=3,DEPTH=2,KIDS=2", "MEMBER,NODES=3,DEPTH=3,KIDS=3", "equal different equal-props", "one of the two possibly a member of a group; every pair of hierarchies of up to NODES chunks, any composition, all ids, types, sizes and data symbolic"),
  J("same-shape", "h_compare.c", "SAME,NODES=4,DEPTH=3,KIDS=3", "SAME,NODES=5,DEPTH=3,KIDS=3", "equal different equal-props", "every pair of equally shaped hierarchies"),
  J("shapes", "h_compare.c", "SHAPES", None, "equal different", SH + "; one difference at one of eight places", steps=100000000))
CROWD = lambda n, labels: J(n, "h_compose.c", "CROWD=300", None, labels, "CROWD additions to each kind of group; one of 16 of them of any size or type", steps=100000000, frontier=16)
C("C16", J("sequences", "h_compose.c", "SEQ,CHUNKS=4", "SEQ,CHUNKS=5", "added single", "every order of additions that merges CHUNKS chunks of any kind and data size below 2^26"),
  J("update", "h_compose.c", "UPDATE,NODES=4,DEPTH=4,KIDS=3", "UPDATE,NODES=5,DEPTH=4,KIDS=3", "recalculated from-data from-prop two-levels", "every hierarchy of up to NODES chunks, every chunk of any size below 2^26 afterwards, recalculated from any chunk"),
  J("shapes", "h_compose.c", "UPDATE,SHAPES,NSHAPES=9", None, "recalculated", SH9, steps=100000000),
  CROWD("crowd", "added"))
C("C17", J("members", "h_compose.c", "UPKEEP,MEMBERS=4,MINM=0,PROPS=1", "UPKEEP,MEMBERS=5,MINM=0,PROPS=1", "first later with-props", "up to MEMBERS group members of any kind and type, shared properties before them"),
  J("long", "h_compose.c", "UPKEEP,MEMBERS=5,MINM=5,PROPS=0,FEWTYPES", "UPKEEP,MEMBERS=6,MINM=6,PROPS=0,FEWTYPES", "first later", "longer sequences of few types"),
  CROWD("crowd", "added mixed"))
C("C18", J("forms", "h_search.c", "FORMS,NODES=4,DEPTH=4,KIDS=3,NTYPES=2", "FORMS,NODES=5,DEPTH=4,KIDS=3,NTYPES=2", "none one several set empty-set", "every hierarchy of up to NODES chunks, members of any kind, every type, every set of up to NTYPES types"),
  J("shapes", "h_search.c", "FORMS,SHAPES", None, "several set", SH, steps=100000000))
C("C19", J("tree", "h_prop.c", "TREE,NODES=5,DEPTH=4,KIDS=3", "TREE,NODES=6,DEPTH=4,KIDS=3", "none own shared shared-by-outer-list", "every hierarchy of up to NODES chunks, every id and type, looked up from any form"),
  J("chain2", "h_prop.c", "CHAIN,LEVELS=2,PROPS=2,PROPCH=2", None, "none own shared shared-by-outer-list", "LEVELS enclosing groups with up to PROPS shared-property groups of up to PROPCH chunks, sibling and inner lists"),
  J("chain4", "h_prop.c", "CHAIN,LEVELS=4,PROPS=1", "CHAIN,LEVELS=4,PROPS=2", "none own shared shared-by-outer-list", "LEVELS enclosing groups"),
  J("large", "h_prop.c", "BIG=300", None, "none own shared shared-by-outer-list", "BIG enclosing groups, every fourth a list, with up to BIG shared-property groups of up to BIG chunks; every id", steps=100000000))
C("C20", J("chunks", "h_search.c", "CHUNKS,MEMBERS=5", "CHUNKS,MEMBERS=6", "none one several", "every form of up to MEMBERS members of any kind, every id"),
  J("many", "h_search.c", "CHUNKS,MANY=12", "CHUNKS,MANY=16", "none several", "MANY members with one of two ids"),
  J("crowd", "h_search.c", "CHUNKS,CROWD=300", None, "none one several", "up to CROWD members of every kind and five ids, one of any id; every id", steps=100000000))
C("C31", J("create", "h_compose.c", "CREATE,LEN=9", None, "group any-size copied attached text", "every id, every size up to LEN bytes of any data", steps=100000000))
C("C21", J("registries", "h_registry.c", "FORMS=3,CHAINL=2,PER=2", None, "by-form form-without-it global default parent-table", "every registry of up to FORMS form types with up to PER chunk types each, chained to up to CHAINL registries; every form type and id looked up"),
  J("again", "h_registry.c", "FORMS=1,CHAINL=1,PER=1,AGAIN", "FORMS=2,CHAINL=1,PER=1,AGAIN", "same-registry other-registry by-form global", "a second look-up, in the same registry or in another one"),
  J("deep-tables", "h_registry.c", "FORMS=1,CHAINL=3,PER=1", "FORMS=1,CHAINL=5,PER=1", "by-form global default grandparent-table", "tables chained to up to CHAINL tables"),
  J("long-table", "h_registry.c", "TABLE,TABLEN=9", None, "", "one form's table of up to 9 chunk types", frontier=16),
  J("large-tables", "h_registry.c", "BIG=300", None, "by-form form-without-it global default parent-table grandparent-table", "fixed registries with up to BIG form types, BIG chunk types in a table and 24 tables in a chain; every form type and id looked up", frontier=16),
  J("used", "h_ext.c", "NODES=4,DEPTH=3,KIDS=2", "NODES=5,DEPTH=3,KIDS=2", "by-form by-parent-table global in-properties several", "the handlers that reading, writing, checking, printing, comparing and freeing really call, " + NB % "hierarchy"))
C("C22", XS("sizes", "SIZES", "read exact longer shorter written"),
  XS("sizes-cut", "SIZES,NBIG=9,CUT=1", "refused released", frontier=16), XS("sizes-ioerror", "SIZES,NBIG=9,CUT=2", "refused released", frontier=16),
  J("tree", "h_ext.c", "NODES=4,DEPTH=3,KIDS=2", "NODES=5,DEPTH=3,KIDS=2", "by-form several", NB % "hierarchy"),
  J("tree-cut", "h_ext.c", "NODES=3,DEPTH=3,KIDS=2,CUT", None, "refused released", NB % "hierarchy" + "; cut at any position"))
TN = "up to FILES files, each with any conforming hierarchy of up to NODES chunks"
def TJ(n, q, t, labels, b): # through the function and through main
    return [J(n + ("-main" if m else ""), "h_tools.c", ("VF_MAIN," if m else "") + q, ("VF_MAIN," if m else "") + t, labels.replace("none", "no-input") if m else labels, b + (", through main and its options" if m else ""), tool=("iffjoin", m)) for m in (False, True)]
def TP(n, q, t, labels, b, **kw):
    return [J(n + ("-main" if m else ""), "h_tools.c", ("VF_MAIN," if m else "") + q, ("VF_MAIN," if m else "") + t, labels, b + (", through main and its options" if m else ""), tool=("iffpp", m), **kw) for m in (False, True)]
OOM = lambda n, op, q, t, what: J(n, "h_oom.c", "OP=%d,%s" % (op, q), "OP=%d,%s" % (op, t), "failed succeeded", what + "; any single allocation fails, or every one from any point on")
C("C24", OOM("create", 0, "NODES=3,DEPTH=3,KIDS=2", "NODES=3,DEPTH=3,KIDS=2", "every constructor"),
  OOM("read", 1, "NODES=4,DEPTH=3,KIDS=3", "NODES=5,DEPTH=4,KIDS=3", "reading the encoding of " + NB % "conforming hierarchy"),
  OOM("write", 2, "NODES=3,DEPTH=3,KIDS=2", "NODES=4,DEPTH=3,KIDS=3", "writing " + NB % "hierarchy"),
  OOM("search", 3, "NODES=3,DEPTH=3,KIDS=2", "NODES=4,DEPTH=3,KIDS=3", "searching " + NB % "hierarchy"),
  OOM("collect", 4, "NODES=3,DEPTH=3,KIDS=2", "NODES=3,DEPTH=3,KIDS=2", "collecting the chunks of a form"),
  *TJ("join", "JOIN,OOM=24,FILES=2,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "JOIN,OOM=24,FILES=3,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "failed one several", TN + "; any single allocation fails while they are joined, or every one from any point on"),
  *TP("print", "OOM=14,READABLE,NODES=2,DEPTH=3,KIDS=2,RAWMAX=1", "OOM=18,READABLE,NODES=3,DEPTH=3,KIDS=2,RAWMAX=1", "failed conforming non-conforming", "pretty printing " + NB % "hierarchy" + "; any single allocation fails, or every one from any point on"),
  OOM("add", 5, "NODES=3,DEPTH=3,KIDS=2", "NODES=3,DEPTH=3,KIDS=2", "adding to every kind of group, setting text"))
C("C23", BY(18, 22, "accepted refused"),
  J("files", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "CONF,NODES=4,DEPTH=4,KIDS=3,RAWMAX=1", "rewritten" and "read", "read and freed: the encoding of " + NB % "conforming hierarchy"),
  J("cut", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1,CUT=1", "CONF,NODES=4,DEPTH=4,KIDS=3,RAWMAX=1,CUT=1", "refused", "every proper prefix"),
  J("ioerror", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1,CUT=2", "CONF,NODES=4,DEPTH=4,KIDS=3,RAWMAX=1,CUT=2", "refused", "the device fails at every position"),
  J("shapes", "h_file.c", "SHAPES,CONF", None, "read", SH, steps=100000000),
  *LARGE(), CROWD("crowd", "added"), J("print-shapes", "h_print.c", "SHAPES,CAP=1500000", None, "", "printed: " + SH, steps=2000000000),
  J("composed", "h_write.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "CONF,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "written", "composed, written and freed: " + NB % "conforming hierarchy"),
  J("faults", "h_write.c", "CONF,FAULT,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=40", "CONF,FAULT,NODES=3,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=60", "fault-fd fault-file fault-stdout", "writes that fail anywhere"),
  J("check", "h_check.c", "MIXED,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "MIXED,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "conforming not-conforming", "checked: " + NB % "hierarchy"),
  J("compare", "h_compare.c", "NODES=2,DEPTH=2,KIDS=2", "NODES=3,DEPTH=2,KIDS=2", "equal different", "compared: every pair of hierarchies of up to NODES chunks"),
  J("print", "h_print.c", "NODES=3,DEPTH=3,KIDS=3,RAWMAX=1,FIDS", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,FIDS", "", "printed: " + NB % "hierarchy"),
  J("search", "h_search.c", "FORMS,NODES=3,DEPTH=4,KIDS=3,NTYPES=2", "FORMS,NODES=4,DEPTH=4,KIDS=3,NTYPES=2", "none one several", "searched: every hierarchy of up to NODES chunks"),
  J("collect", "h_search.c", "CHUNKS,MEMBERS=3", "CHUNKS,MEMBERS=5", "none one several", "chunks of a form collected"),
  J("lookup", "h_prop.c", "TREE,NODES=3,DEPTH=4,KIDS=3", "TREE,NODES=4,DEPTH=4,KIDS=3", "none own", "properties looked up"),
  J("extension", "h_ext.c", "NODES=3,DEPTH=3,KIDS=2", "NODES=4,DEPTH=3,KIDS=2", "by-form", "with application chunks"),
  XS("sizes", "SIZES", "read exact longer shorter written"), XS("sizes-cut", "SIZES,NBIG=9,CUT=1", "refused", frontier=16),
  J("late-properties", "h_file.c", "LATE,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", None, "read late-properties", NB % "hierarchy"),
  MUT("mutated", "MUT,NODES=3,DEPTH=3,KIDS=2,RAWMAX=1,TRAIL=0", "MUT,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,TRAIL=0", "refused accepted"),
  J("merge", "h_compose.c", "SEQ,CHUNKS=3", "SEQ,CHUNKS=4", "added", "composed in every order"),
  J("raw", "h_compose.c", "CREATE,LEN=5", "CREATE,LEN=9", "", "constructors and data setters", steps=100000000),
  J("join", "h_tools.c", "JOIN,BAD,FILES=2,NODES=1,DEPTH=2,KIDS=2,RAWMAX=1", "JOIN,BAD,FILES=2,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "refused", "files joined, one of them refused", tool=("iffjoin", False)))
C("C25", *TJ("valid", "JOIN,FILES=2,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "JOIN,FILES=3,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "none one several mixed uniform", TN),
  *TJ("three", "JOIN,FILES=3,NODES=1,DEPTH=2,KIDS=2,RAWMAX=1", "JOIN,FILES=4,NODES=1,DEPTH=2,KIDS=2,RAWMAX=1", "none one several mixed uniform", TN),
  *TJ("many", "JOIN,MANY=36", "JOIN,MANY=36", "several mixed uniform", "MANY files"),
  *TJ("again", "JOIN,AGAIN,FILES=2,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "JOIN,AGAIN,FILES=3,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "several", "the same file twice"),
  *TJ("refused", "JOIN,BAD,FILES=2,NODES=1,DEPTH=2,KIDS=2,RAWMAX=1", "JOIN,BAD,FILES=3,NODES=1,DEPTH=2,KIDS=2,RAWMAX=1", "refused", TN + "; one is missing, cut anywhere, fails anywhere or does not conform"),
  *TJ("output", "JOIN,OUTFAIL,FILES=2,NODES=1,DEPTH=2,KIDS=2,RAWMAX=1", "JOIN,OUTFAIL,FILES=2,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "output-failure one several", TN + "; the output cannot be opened, written, flushed or closed"))
C("C26", *TP("files", "NODES=2,DEPTH=3,KIDS=2,RAWMAX=1", "NODES=2,DEPTH=3,KIDS=2,RAWMAX=2", "conforming non-conforming unchecked missing unreadable", NB % "hierarchy" + "; members of any kind, one chunk with any id and type; complete, cut anywhere or failing anywhere; from a file or standard input"),
  *TP("readable", "READABLE,NODES=3,DEPTH=2,KIDS=2,RAWMAX=0", "READABLE,NODES=3,DEPTH=3,KIDS=2,RAWMAX=1", "conforming non-conforming unchecked", NB % "hierarchy"))
C("C27", J("data", "h_print.c", "DATA=3", "DATA=5", "bytes text group", "one data chunk of up to DATA bytes, every id and byte"),
  J("long", "h_print.c", "LONGDATA,CAP=40000", None, "bytes text", "one data chunk of 9..4097 bytes (34 sizes), one of them symbolic", steps=100000000),
  J("sizes", "h_print.c", "SIZES", None, "group", "thirteen declared sizes"),
  J("tree", "h_print.c", "NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "NODES=3,DEPTH=3,KIDS=3,RAWMAX=2", "bytes text group shared-properties", NB % "hierarchy" + "; every id and type"),
  J("tree4", "h_print.c", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,FIDS", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=2,FIDS", "bytes text group shared-properties", NB % "hierarchy" + "; three symbolic characters per id"),
  J("pairs", "h_print.c", "TWICE,NODES=2,DEPTH=3,KIDS=2,RAWMAX=1,FIDS", "TWICE,NODES=2,DEPTH=3,KIDS=2,RAWMAX=2,FIDS", "same-text different-text", "every pair of hierarchies of up to NODES chunks: the same text only for equal ones"),
  J("shapes", "h_print.c", "SHAPES,CAP=1500000", None, "bytes text group shared-properties", SH + " (most data fixed, at most 2001 bytes)", steps=2000000000))
C("C28", BY(18, 22, "accepted refused"),
  J("callback", "h_diag.c", "", None, "default installed", "default and replaced callback, eight kinds of failure"),
  J("repeated", "h_hist.c", "NODES=2,DEPTH=2,KIDS=2,RAWMAX=1,REP=300", "NODES=2,DEPTH=2,KIDS=2,RAWMAX=1,REP=2000", "both", "up to REP failing or succeeding operations before another one", steps=1000000000),
  J("silence", "h_file.c", "CONF,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "CONF,NODES=5,DEPTH=4,KIDS=3,RAWMAX=1", "rewritten", "read, checked, written, compared: the encoding of " + NB % "conforming hierarchy"),
  J("silence-shapes", "h_file.c", "CONF,SHAPES", None, "rewritten", SH, steps=100000000),
  J("cut", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=2,CUT=1", "CONF,NODES=4,DEPTH=4,KIDS=3,RAWMAX=1,CUT=1", "refused", "every proper prefix"),
  J("ioerror", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=2,CUT=2", "CONF,NODES=4,DEPTH=4,KIDS=3,RAWMAX=1,CUT=2", "refused", "the device fails at every position"),
  J("write-faults", "h_write.c", "FAULT,NODES=3,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=60", "FAULT,NODES=4,DEPTH=3,KIDS=2,RAWMAX=1,FOPS=60", "fault-fd fault-file fault-stdout", "writes that fail anywhere"),
  J("filler-faults", "h_write.c", "FAULT,SLACK=1,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=60", "FAULT,SLACK=2,NODES=3,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=60", "fault-fd fault-file fault-stdout", "the same with filler bytes"),
  J("check", "h_check.c", "MIXED,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "MIXED,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "conforming not-conforming", NB % "hierarchy" + "; members of any kind; one chunk with any id and type"),
  J("check-sizes", "h_check.c", "ANYSIZES,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", None, "conforming not-conforming", "every declared size"),
  J("compare", "h_compare.c", "NODES=2,DEPTH=2,KIDS=2", "NODES=3,DEPTH=2,KIDS=2", "equal different", "every pair of hierarchies of up to NODES chunks"),
  J("fields", "h_prim.c", "FREAD", None, "", "every field, size and stream"), J("fields-write", "h_prim.c", "FWRITE", None, "", "every field, size and failing byte"),
  J("codecs", "h_prim.c", "READ", None, "", "every integer"), J("codecs-write", "h_prim.c", "WRITE", None, "", "every integer"),
  XS("sizes", "SIZES,NBIG=9,CUT=1", "refused", frontier=16), XS("silence-sizes", "SIZES", "written"), MUT("mutated", "MUT,NODES=3,DEPTH=3,KIDS=2,RAWMAX=1,TRAIL=0", "MUT,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,TRAIL=0", "refused accepted"),
  J("extension", "h_ext.c", "NODES=3,DEPTH=3,KIDS=2,CUT", None, "refused", "hierarchies with application chunks cut or failing anywhere"),
  J("oom-read", "h_oom.c", "OP=1,NODES=3,DEPTH=3,KIDS=2", "OP=1,NODES=4,DEPTH=3,KIDS=3", "failed succeeded", "allocation failures while reading"),
  J("oom-write", "h_oom.c", "OP=2,NODES=3,DEPTH=3,KIDS=2", None, "failed succeeded", "allocation failures while writing"),
  J("search", "h_search.c", "FORMS,NODES=3,DEPTH=4,KIDS=3,NTYPES=2", None, "none one several", "searching is silent"))
HOSTS = (("i386", "32-bit little endian"), ("be32", "32-bit big endian"), ("be64", "64-bit big endian"), ("uchar", "64-bit little endian with unsigned char"), ("be32u", "32-bit big endian with unsigned char"))
def HJ(name, harness, q, t, labels, p, b, **kw):
    return [J(name + "-" + h, harness, q, t, labels, what + ": " + b, target=h, p=p, **kw) for h, what in HOSTS]
C("C29", *HJ("read-ints", "h_prim.c", "READ", None, "", 9, "every integer"), *HJ("write-ints", "h_prim.c", "WRITE", None, "", 9, "every integer"),
  *HJ("read-fields", "h_prim.c", "FREAD", None, "", 10, "every field"), *HJ("write-fields", "h_prim.c", "FWRITE", None, "", 10, "every field"),
  *HJ("read", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=2", "CONF,NODES=4,DEPTH=3,KIDS=3,RAWMAX=2", "read", 2, "the encoding of " + NB % "conforming hierarchy"),
  *HJ("rewrite", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=2", "CONF,NODES=4,DEPTH=3,KIDS=3,RAWMAX=2", "rewritten", 7, "the encoding of " + NB % "conforming hierarchy"),
  *HJ("write", "h_write.c", "NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "written", 5, NB % "composed hierarchy"),
  *HJ("bytes", "h_read.c", "N=16", "N=20", "", 2, "every file of N bytes"),
  *HJ("bulk-read", "h_bulk.c", "", None, "read", 4, "one data chunk of any size"), *HJ("bulk-write", "h_bulk.c", "", None, "written", 5, "one data chunk of any size"),
  *HJ("padding", "h_file.c", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=3,PADSYM,TRAIL=2", "CONF,NODES=4,DEPTH=3,KIDS=3,RAWMAX=3,PADSYM,TRAIL=2", "read", 2, "padding bytes and trailing bytes arbitrary"),
  *HJ("late-properties", "h_file.c", "LATE,NODES=4,DEPTH=3,KIDS=2,RAWMAX=1", "LATE,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "read late-properties", 2, "shared-property groups anywhere among the members of their list"),
  *HJ("cut", "h_file.c", "CONF,NODES=2,DEPTH=2,KIDS=2,RAWMAX=2,CUT=1", "CONF,NODES=3,DEPTH=3,KIDS=3,RAWMAX=2,CUT=1", "refused", 3, "every proper prefix"),
  *HJ("shapes", "h_file.c", "SHAPES,MIDSHAPES", None, "read", 2, SH7, steps=100000000), *HJ("write-shapes", "h_write.c", "SHAPES,MIDSHAPES", None, "written", 5, SH7, steps=100000000),
  *HJ("check", "h_check.c", "MIXED,NODES=2,DEPTH=3,KIDS=3,RAWMAX=1", "MIXED,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "conforming not-conforming", 13, NB % "hierarchy" + "; one chunk with any id and type"),
  *HJ("check-sizes", "h_check.c", "ANYSIZES,NODES=3,DEPTH=3,KIDS=2,RAWMAX=1", "ANYSIZES,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "conforming not-conforming", 14, "every declared size"),
  *HJ("compare", "h_compare.c", "NODES=2,DEPTH=2,KIDS=2", "NODES=3,DEPTH=2,KIDS=2", "equal different", 15, "every pair of hierarchies of up to NODES chunks"),
  *HJ("update", "h_compose.c", "UPDATE,NODES=3,DEPTH=4,KIDS=3", "UPDATE,NODES=4,DEPTH=4,KIDS=3", "recalculated", 16, "sizes recalculated"),
  *HJ("search", "h_search.c", "FORMS,NODES=3,DEPTH=4,KIDS=3,NTYPES=2", "FORMS,NODES=4,DEPTH=4,KIDS=3,NTYPES=2", "none one several", 18, "forms searched"),
  *HJ("lookup", "h_prop.c", "TREE,NODES=3,DEPTH=4,KIDS=3", "TREE,NODES=4,DEPTH=4,KIDS=3", "none own", 19, "properties looked up"),
  *HJ("ids", "h_prim.c", "IDS", None, "", 11, "all ids"), *HJ("types", "h_prim.c", "FTYPES", None, "", 12, "all form types"),
  *HJ("extension", "h_ext.c", "SIZES,NBIG=9", None, "read written", 22, "application chunks of 0..1000 bytes"),
  *HJ("print", "h_print.c", "NODES=2,DEPTH=3,KIDS=3,RAWMAX=1", "NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "bytes text group", 27, NB % "hierarchy"))
C("C30", J("check", "h_check.c", "MIXED,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "MIXED,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "conforming not-conforming", "checking " + NB % "hierarchy"),
  J("check-sizes", "h_check.c", "ANYSIZES,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", None, "conforming not-conforming", "checking with any declared sizes"),
  J("compare", "h_compare.c", "NODES=2,DEPTH=2,KIDS=2", "NODES=3,DEPTH=2,KIDS=2", "equal different", "comparing every pair of hierarchies of up to NODES chunks"),
  J("print", "h_print.c", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,FIDS", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=2,FIDS", "", "printing " + NB % "hierarchy"),
  J("print-shapes", "h_print.c", "SHAPES,CAP=1500000", None, "", "printing " + SH, steps=2000000000),
  J("write", "h_write.c", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=1,SLACK=1", "NODES=4,DEPTH=3,KIDS=3,RAWMAX=2,SLACK=2", "written", "writing " + NB % "hierarchy" + ", declared sizes up to SLACK larger"),
  J("write-any-sizes", "h_write.c", "ANYDECL,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1,ANYCOMP", "ANYDECL,NODES=4,DEPTH=3,KIDS=3,RAWMAX=1", "written", "writing " + NB % "hierarchy" + ", whose groups declare up to two bytes fewer or one more than they take, or none"),
  J("write-faults", "h_write.c", "FAULT,NODES=2,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=40", "FAULT,NODES=3,DEPTH=2,KIDS=2,RAWMAX=1,FOPS=60", "fault-fd fault-file fault-stdout", "writes that fail anywhere"),
  J("write-shapes", "h_write.c", "SHAPES", None, "written", "writing " + SH, steps=100000000),
  J("search", "h_search.c", "FORMS,NODES=4,DEPTH=4,KIDS=3,NTYPES=2", "FORMS,NODES=5,DEPTH=4,KIDS=3,NTYPES=2", "none one several", "searching every hierarchy of up to NODES chunks"),
  J("collect", "h_search.c", "CHUNKS,MEMBERS=4", "CHUNKS,MEMBERS=5", "none one several", "collecting chunks"),
  J("lookup", "h_prop.c", "TREE,NODES=4,DEPTH=4,KIDS=3", "TREE,NODES=5,DEPTH=4,KIDS=3", "none own shared", "looking up properties"),
  J("lookup-chain", "h_prop.c", "CHAIN,LEVELS=2,PROPS=1", "CHAIN,LEVELS=2,PROPS=2,PROPCH=2", "none own shared", "looking up shared properties"),
  J("extension", "h_ext.c", "NODES=3,DEPTH=3,KIDS=2", "NODES=4,DEPTH=3,KIDS=2", "by-form", "with application chunks"),
  *LARGE())
HB = "pairs of operations out of reading, writing, checking, comparing, printing, searching, collecting, looking up, composing, recalculating, a refused read and a failing write"
C("C32", J("pairs", "h_hist.c", "NODES=2,DEPTH=2,KIDS=2,RAWMAX=1", "NODES=3,DEPTH=2,KIDS=2,RAWMAX=1", "both", HB + ", on any two hierarchies of up to NODES chunks", time=(100, 800)),
  J("repeated", "h_hist.c", "NODES=2,DEPTH=2,KIDS=2,RAWMAX=1,REP=300", "NODES=2,DEPTH=2,KIDS=2,RAWMAX=1,REP=2000", "both", HB + ", the first one on a nested hierarchy and up to REP times, the second one on any hierarchy of up to NODES chunks", steps=1000000000),
  J("changed", "h_hist.c", "NODES=3,DEPTH=3,KIDS=2,RAWMAX=1,MUTATE", "NODES=4,DEPTH=3,KIDS=2,RAWMAX=1,MUTATE", "changed", "the same operation before and after a hierarchy of up to NODES chunks is changed by adding a chunk, a group or shared properties, or by another type or other data", time=(100, 800)),
  J("again", "h_hist.c", "NODES=3,DEPTH=2,KIDS=2,RAWMAX=1,AGAIN", "NODES=4,DEPTH=3,KIDS=2,RAWMAX=1,AGAIN", "between silent explained odd", "one operation twice with the same arguments, possibly with reading or checking something else in between: " + HB + ", checking one id, type or chunk, reading a file with warnings", time=(100, 800)),
  J("registries", "h_regs.c", "", None, "handled built-in changed", "two operations on a group with two application chunks, alone or in a concatenation or list, each with any of two registries or none, or with a registry that is changed in between"),
  J("look-ups", "h_registry.c", "FORMS=1,CHAINL=1,PER=1,AGAIN", "FORMS=2,CHAINL=1,PER=1,AGAIN", "same-registry other-registry by-form global", "a second handler look-up, in the same registry or in another one"),
  J("callback", "h_diag.c", "", None, "default installed", "default and replaced error callback, eight kinds of failure"))
C("C33", J("read", "h_stream.c", "READ,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "READ,NODES=4,DEPTH=3,KIDS=2,RAWMAX=1", "read refused file stream standard-input", NB % "hierarchy" + "; complete, cut anywhere or failing anywhere, through every reading function", time=(100, 800)),
  J("write", "h_stream.c", "WRITE,NODES=3,DEPTH=3,KIDS=3,RAWMAX=1", "WRITE,NODES=4,DEPTH=3,KIDS=2,RAWMAX=1", "written failed file replaced stream standard-output", NB % "hierarchy" + "; the device takes everything or any smaller number of bytes, through every writing function", time=(100, 800)))
