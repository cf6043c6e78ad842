#!/usr/bin/env python3
"""Writes known_findings.json; commits are looked up by their subject in /repo."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
FIXED = [
 ("M02", "do not take a failed by-hash retrieval for a missing index", "canonical index with other content and by-hash names answered with 404 or checksums not declared: the index counted as missing (or the directory was fetched) and the update succeeded without it"),
 ("M10", "do not take a failed by-hash retrieval for a missing index", "same history: by-hash names of undeclared checksums were requested as the base URL"),
 ("M03", "do not take a failed by-hash retrieval for a missing index", "same history: a mirror without the announced index was published"),
 ("M02", "report fsync failure of info.json", "fsync of info.json fails: Storage.Save reported success"),
 ("M04", "match sections of indices by whole path components", "section 'free' also selected 'non-free'"),
 ("M15", "match sections of indices by whole path components", "section 'free' also selected 'non-free'"),
 ("M06", "do not fail garbage collection on dangling symlinks", "a dangling x.tmp link left by a crash made every later garbage collection fail"),
 ("M08", "do not fail garbage collection on dangling symlinks", "the run after a crash between symlink and rename failed"),
 ("M06", "wait for downloads of Release files before giving up", "failed Release handling left downloads running that wrote into the storage directory while it was removed"),
 ("M01", "make public symlinks durable before removing old mirrors", "power loss after a failed DirSync of the new link: old mirror removed although the durable link still pointed to it"),
 ("M08", "make public symlinks durable before removing old mirrors", "same history seen by the next run"),
 ("M09", "finish failed responses before retrying a download", "bodies of 5xx or broken responses stayed open while the retry opened another connection: more than max_conns open"),
 ("M09", "max_conns = 0 means no limit, negative values are rejected", "max_conns = 0 blocked every download for ever"),
 ("C14", "max_conns = 0 means no limit, negative values are rejected", "max_conns = 0 hung, negative values panicked"),
 ("M12", "refuse to store files outside of the mirror", "Filename: ../x was linked outside of the mirror's tree"),
 ("M12", "detect conflicts of index names with by-hash names and directories", "Release lists a directory name or a wrong by-hash name: silently left out or wrong data under a by-hash name"),
 ("M03", "fail if indices declare conflicting checksums for an item", "two indices declare different checksums for one file: published although it contradicts one of them"),
 ("C14", "reject relative dir and missing url before mirroring", "missing url: nil pointer panic; relative dir: lock file created before the error"),
]
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    from findings_more import FIXED as M, FINDINGS
except ImportError:
    M, FINDINGS = [], []
out = {"findings": FINDINGS, "fixed": ["fixed: property=%s %s %s" % (p, log["fix: " + s], w) for p, s, w in FIXED + M]}
json.dump(out, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
print(len(out["fixed"]), "fixed,", len(FINDINGS), "known")
