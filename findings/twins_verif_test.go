package btc

// Two valid main-net WIFs of different keys that are equal up to letter case (found by search).
const caseTwinA, caseTwinB = "5JKmGh5KasctVb3o9p1eNZmgqgRNvAUTmVBs9aca5VJHHMFtMgc", "5JkmgH5kaSCtvb3o9p1enzmGqgRNVaUtmVbS9aCA5VjhhmftMGc"
