#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C02': ('property-based testing against a reference index (rapid)', 'exploration', 'Generated version histories; every lookup compared with a map-based reference. Trusts bbolt and the harness encoders.'),
 'C03': ('property-based testing against a reference index (rapid)', 'exploration', 'Generated indexes and key ranges; scans compared item by item with a sorted reference. Trusts bbolt.'),
 'C25': ('stateful model-based testing of index histories (rapid)', 'exploration', 'Generated insert/commit/close/reopen/query histories against a map model; file contents read with bbolt directly.'),
 'C18': ('property-based testing of opening existing metadata (rapid)', 'exploration', 'Generated metadata records and open options against the acceptance rule; file compared before and after.'),
 'C19': ('property-based testing against a reference mapping (rapid)', 'exploration', 'Generated chunk sets and query orders against a linear-search reference; single-stripe semantics (first stripe).'),
 'C15': ('property-based testing of sampling invariants (rapid)', 'exploration', 'Generated device sizes, block sizes and sample counts; invariants of the sample set, plus identify on sparse images.'),
 'C20': ('property-based differential testing of decoders against independent encoders (rapid)', 'exploration', 'Random structures with random surroundings; every accessor compared with an independent description of the on-disk format.'),
 'C23': ('property-based round-trip and differential testing (rapid)', 'exploration', 'Random and near-valid id texts against an independent parser.'),
 'C24': ('property-based testing with conforming fault-injecting readers (rapid)', 'exploration', 'Random readers that use every freedom io.ReaderAt allows.'),
 'C01': ('property-based testing of recon on generated images (rapid)', 'exploration', 'Generated filesystem images; metadata records read with bbolt and compared with the leaves written. Trusts bbolt and the harness encoders.'),
 'C16': ('stateful property-based testing of recon histories (rapid)', 'exploration', 'Sequences of recon runs over images with overlapping parts, compared with the union after every run.'),
 'C14': ('property-based and metamorphic testing of identify (rapid)', 'exploration', 'Generated block populations in several orders against an independent counter; CLI output parsed.'),
 'C26': ('property-based testing of dump-index output (rapid)', 'exploration', 'Generated metadata; the whole output is parsed and compared with the sorted item versions.'),
 'C27': ('property-based testing against a step-by-step walk (rapid)', 'exploration', 'Generated trees with colliding and unusual names; every lookup compared with a reference walk.'),
 'C04': ('property-based testing of recover against a reference interpretation (rapid)', 'exploration', 'Generated filesystems; the restored tree is compared entry by entry and byte by byte with an independent interpretation of the items. Encoded extents are C34; RAID is out of scope.'),
 'C05': ('property-based testing with hostile metadata and destinations (rapid)', 'exploration', 'Runs as an unprivileged user in a scratch box; everything outside of the destination is compared before and after.'),
 'C06': ('stateful property-based testing of repeated recovery (rapid)', 'exploration', 'Generated pre-existing files and links; destination compared with the clobber rule.'),
 'C12': ('property-based testing with injected metadata damage (rapid)', 'exploration', 'Damaged items, leaves, copies of leaves and cut images, and the mounted view where items are lost; what depends on unharmed items or copies is compared with the original.'),
 'C13': ('property-based testing of ls against a reference listing (rapid)', 'exploration', 'Generated trees and paths; the whole output is compared line by line.'),
 'C21': ('property-based testing with stale item versions (rapid)', 'exploration', 'Older versions of items, and extents of other states of a file that overlap its own, are added; recover, ls and the mounted view are compared with the newest-wins interpretation.'),
 'C29': ('property-based testing on generated directory and subvolume graphs (rapid)', 'exploration', 'Every directory must be restored at exactly one of its places; loops and several references included.'),
 'C30': ('property-based testing with injected I/O faults (rapid, strace)', 'exploration', 'Failing reads, writes and file creations at generated points of real runs, and images that end early; every file must be exact or named on stderr.'),
 'C31': ('property-based and metamorphic testing of command lines (rapid)', 'exploration', 'Generated unusable command lines of about 25 kinds in a scratch directory compared before and after; usable ones in two spellings.'),
 'C32': ('stateful model-based testing with a copy-on-write filesystem model (rapid)', 'exploration', 'Generated operation histories; recover, ls and the mounted view compared with the last state of everything and with the current tree. Snapshots are left out.'),
 'C33': ('randomised concurrency testing of processes (rapid)', 'exploration', 'Up to five recon and four dump-index processes started at generated times, one sometimes killed; schedules are those the kernel picks.'),
 'C34': ('property-based testing of recover and of reads through the FUSE protocol (rapid)', 'exploration', 'Generated trees with extents marked compressed, encrypted or otherwise encoded; every byte outside of them compared, reads of them have to fail.'),
 'C35': ('fault injection: killed runs and lost writes at generated points, then run again (rapid, strace)', 'exploration', 'Runs killed before generated system calls, tails of files lost; the tree after the last run is compared entry by entry and byte by byte. Lost writes are simulated by cutting or zeroing files.'),
 'C36': ('property-based testing of the whole workflow on generated multi-filesystem images (rapid)', 'exploration', 'Up to four generated filesystems on one image, some with losses; identify compared with a count over all blocks, metadata and trees of each compared in full.'),
 'C37': ('property-based testing of recover and of reads through the FUSE protocol (rapid)', 'exploration', 'Generated filesystems whose chunk records are lost in part, or whose extents lead outside of all chunks; every byte of recovered files and of reads compared, reports required.'),
 'C38': ('randomised schedules of signals, requests and failing unmounts through the FUSE protocol (rapid)', 'exploration', 'Signals at generated times while clients read; fusermount is a stand-in that fails as generated. A signal in the first moments, before the command waits for it, is left open.'),
 'C28': ('metamorphic and differential property-based testing (rapid)', 'exploration', 'Permuted and relabelled strings must give bit-identical entropies; value compared with a high-precision reference.'),
 'C07': ('property-based testing of the mounted view through the FUSE protocol (rapid)', 'exploration', 'The real mount command serves requests that the harness plays in place of the kernel; every answer is compared with the reference interpretation. Kernel behaviour (caching, permission checks) is not part of it.'),
 'C08': ('property-based testing of reads through the FUSE protocol against reference contents (rapid)', 'exploration', 'Offsets and lengths biased to extent boundaries; every byte compared. Encoded extents are C34; RAID is out of scope.'),
 'C09': ('property-based testing with generated changing requests through the FUSE protocol (rapid)', 'exploration', 'Every kind of changing request on every kind of node must fail; view and file checksums compared before and after.'),
 'C10': ('property-based testing of command sequences with checksums (rapid)', 'exploration', 'Generated command lines on intact and damaged images, run by the owner of all files; checksums before and after every command.'),
 'C11': ('structure-aware fuzzing of all commands (rapid)', 'exploration', 'Damaged items and leaves, cut images, generated option values; crash, CPU time and memory limits as oracle.'),
 'C17': ('crash-state and fault injection testing of recon (rapid, strace)', 'fault_enumeration', 'Crash states after kill and power failure are rebuilt from a trace of writes at generated points; write errors, size limits and signals injected into real runs. Trusts that fdatasync makes writes durable.'),
 'C22': ('randomised concurrency testing with race detection through the FUSE protocol (rapid, go -race)', 'exploration', 'Up to 8 concurrent clients compare every answer with the sequential reference; race reports on btrfscue code are violations. Schedules are the ones the Go scheduler picks.'),
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py setup',
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in T:
        t, l, n = T[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                            'thorough_cmd': 'python3 check.py %s thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'Not built yet; property-based testing applies, see DESIGN.md.'})
open(os.path.join(V, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
