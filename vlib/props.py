"""which check decides which property"""
from . import pstore

CHECKS = {pid: (pstore.check(pid), "model_checking") for pid in pstore.STORE}

_store = ("TLA+ specification of the store (S3Store.tla), its properties checked exhaustively by TLC on bounded instances (MC_Store), trace "
          "validation with TLC of random histories and of tours through the transitions of the model, executed on the real service",
          "TLC decides every recorded response against the specification; assurance is for the histories executed (seeded) and, for the "
          "specification itself, for the bounded instances. Trusts the harness, TLC, and the decoding of contents by MD5.")
TECH = {pid: _store for pid in pstore.STORE}
NA = {}
from . import pauth
_auth = ("TLA+ specification of request authentication (Auth.tla, signatures as symbolic terms), every executed request judged by TLC",
         "For the generated requests TLC computes from the raw bytes whether the signature belongs to the request, and compares with "
         "what the real service did. HMAC and SHA-256 are trusted (a signature stands for the term it was made from).")
for _p in ("C11", "C12", "C13", "C15"):
    CHECKS[_p] = (pauth.check(_p), "model_checking")
    TECH[_p] = _auth

from . import pchunk
CHECKS["C14"] = (pchunk.check, "model_checking")
TECH["C14"] = ("TLA+ specification of the chunk chain (Chunked.tla, signatures as symbolic terms), every executed upload judged by TLC",
               "TLC decodes the raw bytes of every generated upload and compares with what the file system backend stored. "
               "HMAC and SHA-256 are trusted.")

from . import ppost
for _p in ("C16", "C26"):
    CHECKS[_p] = (ppost.check(_p), "model_checking")
    TECH[_p] = ("TLA+ specification of form uploads and their policies (Post.tla), every executed form judged by TLC",
                "TLC parses the raw bytes of every generated form, evaluates the policy and compares with the objects in the bucket afterwards.")

from . import papi
for _p in ("C17", "C18", "C24", "C28"):
    CHECKS[_p] = (papi.check(_p), "model_checking")
    TECH[_p] = ("TLA+ specification of the HTTP interface (Api.tla, Names.tla, tables of the S3 API), every executed request judged by TLC",
                "TLC computes the operation, its input and the response from the raw request and the answer of a recording storage "
                "backend, and compares with what the real service did.")

from . import pfault
for _p, _t in (("C22", "interleavings of requests at file operations"), ("C23", "crashes at every file operation"),
               ("C27", "failures of every file operation")):
    CHECKS[_p] = (pfault.check(_p), "model_checking")
    TECH[_p] = ("TLA+ specification of the store (S3Store.tla), trace validation with TLC of executions with " + _t + " of the real service",
                "TLC searches for an order of the effects of overlapping operations that explains all responses. The executions are those "
                "of the seeded schedules; file operations are intercepted by a preloaded library.")

from . import pprog
CHECKS["C30"] = (pprog.check("C30"), "model_checking")
TECH["C30"] = ("TLA+ specification of what a request may wait for (Progress.tla, liveness checked by TLC) and of the store, trace validation "
               "with TLC of executions of the real service and program with stalled clients",
               "TLC decides from the recorded events whether a request that was received completely is still owed an answer after fifteen seconds "
               "without any event, and whether the answers are right. The executions are those of the seeded schedules.")

from . import pspace
CHECKS["C31"] = (pspace.check("C31"), "model_checking")
TECH["C31"] = ("TLA+ specification of the store (S3Store.tla: what a store may occupy), trace validation with TLC of executions of the real service with "
               "refused, broken and abandoned requests",
               "TLC computes from the specified state how many files and bytes the store may occupy and compares with what is there when no request is in "
               "progress; likewise the descriptors. The executions are those of the seeded histories.")

from . import pmem
CHECKS["C32"] = (pmem.check, "model_checking")
TECH["C32"] = ("TLA+ specification of the parts of bodies that a server may hold (Memory.tla, explored by TLC), measurements of the real program judged by TLC",
               "TLC explores a model of uploads and downloads with a window, and decides whether the measured memory of the program keeps the bound of the "
               "specification. The executions are requests with objects of 128 MB and more.")
