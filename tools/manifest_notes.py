NOTES = {}
NA = {
 "C26": "the effect of an interruption between two arbitrary instructions (signals, killed processes, partially written files) is a property of whole-process histories and of the operating system; no contract on a function expresses it",
 "C27": "liveness of trio task schedules: termination under every schedule is not a postcondition of a function and the deductive back end has no temporal reasoning",
 "C28": "accuracy of a statistical estimator on images in floating point: no contract expresses it and real-number models of FFT interpolation are out of reach of the provers",
}
