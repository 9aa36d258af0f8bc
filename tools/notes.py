"""level notes for MANIFEST.json -> tools/levels.json"""
import json, os
N = dict(
C01="chain of write and read proved for any length, any free sectors and any image content (one loop contract per loop, composed over the callee contracts of C04, C06); bounded parts: none",
C02="as C01, including any number of track/sector lists and the entry parsed back from the catalog; bounded parts: none",
C03="frame conditions of every step proved for all images; composition of the steps in c03_operation",
C04="parse, store, next free, reserve and release proved for every bitmap and every list length",
C05="fault at any step, with any error and any bytes written before it, proved for the three operations; the steps are replaced by the most general failing step",
C06="lookup, free slot, store and read of directories of any length proved; names: every 8.3 or 30 character name by length, characters symbolic",
C07="all geometries, all sector numbers, runs of any length proved",
C08="all images, all bitmaps, all geometries proved",
C09="termination (variant: unvisited sectors) and typed errors proved for Atari DOS 2, MyDOS and DOS 3.3 on arbitrary bytes; SpartaDOS: sector map and file walk proved to end, opening at run time",
C10="parsing of arbitrary bytes and building from any number of segments proved, inverse via the closed form of the file",
C11="any number of segments and any overlaps proved",
C12="both halves proved (Apple boot: any number of segments of any size that fit on the disk, loops under contract); the bounded contracts and the run-time part run in addition and are not counted as proved",
C13="views of every form proved by induction on the nesting; interleaving proved for any number of views of any length and any step",
C14="setting, clearing, finding and undoing marks and comments proved for any number of ranges, any segment length and every view form; bounded contracts remain only as a fallback (concrete lengths)",
C15="all segment classes and view forms proved; session marks and session comments (any number) proved",
C16="all header values proved", C17="all cartridge types, any contents, any size proved",
C18="every command proved over a map-valued image and disk for any number of files and all option combinations; argument parsing executed on all option combinations of the listed shapes",
C19="proved over contracts of the decompressors: any data, any documented failure",
)
HERE = os.path.dirname(os.path.abspath(__file__))
json.dump({k: dict(level="proof", note=n) for k, n in N.items()}, open(os.path.join(HERE, "levels.json"), "w"), indent=1)
