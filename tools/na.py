NA = {
 "C38": "the deductive verifier built here is sequential: it has no ownership/permission logic for threads, so absence of data races cannot be stated as a contract within its reach",
 "C39": "a liveness property over unbounded histories of two parties and the event loop; contracts express safety of each call and no variant within reach captures 'eventually'",
}
WIP = {}
LEVEL = {}
NOTE = {}
