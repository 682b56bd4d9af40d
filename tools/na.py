NOTES = {}
NA = {
 "N03": "Worker death is a behaviour of multiprocessing.Pool and the operating system, not of this source: whether the pool's "
        "pending result is ever delivered is not visible in the code analysed.",
 "N04": "Quantifies over user programs outside the repository (class, method and module names), and naming is a chain of string "
        "rewrites whose injectivity depends on those names.",
 "N05": "False of the current design (plain writes into place) and a matter of file-system crash semantics; not a guarantee the "
        "system gives.",
}
