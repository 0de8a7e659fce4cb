#!/usr/bin/env python3
"""Writes /verif/known_findings.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
 ("C06", "one-missing-byte", "embertree/root.go RootElement.Decode", "a message whose outermost container has a definite length and lacks exactly its last byte is accepted as if that byte were 0 (TestDecodeRootWithChildren feeds such a message and requires it to be accepted, so the decoder cannot be repaired without editing that test)"),
 ("C08", "GetAccess-integer", "embertree/parameter.go ParameterContents.GetAccess", "a parameter whose access is announced as INTEGER, as Glow requires, decodes, but the string-typed accessor reports an error (repairing it changes the exported signature)"),
 ("C08", "GetType-integer", "embertree/parameter.go ParameterContents.GetType", "a parameter whose type is announced as INTEGER, as Glow requires, decodes, but the string-typed accessor reports an error (repairing it changes the exported signature)"),
 ("C08", "value-null", "embertree/content_parameter.go DecodeValue", "a parameter whose value is NULL (allowed since Glow 2.50) makes the whole message fail; there is no representation for it"),
 ("C08", "parameter-enumMap", "embertree/parameter.go ParameterContents.Decode", "a parameter announcing an enumeration map (context 15) makes the whole message fail; the feature is not implemented"),
 ("C08", "parameter-streamDescriptor", "embertree/parameter.go ParameterContents.Decode", "a parameter announcing a stream descriptor (context 16) makes the whole message fail; the feature is not implemented"),
]
FIXED = [l.split("|") for l in """
C02|bd9a0cf|WriteReal announced the wrong exponent width
C02|9c144e8|subnormal numbers were written wrongly
C03|99b664a|lengths of 64 KiB and more were written truncated
C03|cc17aed|negative components of an object path were written as garbage instead of being refused
C03|1d43d49|path component 127 was written with a padding byte
C02|0bb49a8|ReadReal crashed or looped on malformed content and mis-scaled exponents
C01|da9b16e|integer readers accepted empty, indefinite and over-long content and stopped at the wrong place
C03|7128feb|ReadBoolean read past an item without content
C03|2b1a076|ReadOID accepted unterminated and overflowing components and other lengths than announced
C05|e14d1b5|lengths beyond the data made the reader allocate or read past the message
C04|2bf082f|empty and unterminated indefinite containers were misread
C05|33eb8d5|unknown context tags made contents decoders loop or misread
C05|dc79441|errors of ReadSequenceStart were ignored, leading to nil readers
C05|73809ed|an empty path made DecodeElement return nil and panic later
C08|16dfb79|qualified functions were not decoded
C10|0ef03ba|matrix labels were dropped
C08|2b5e003|relative object identifiers as values were not decoded or read back
C10|eeeaeaa|invocation arguments were not encoded as values
C11|8ac56d4|GetElementByPath returned a wrong parent for unknown paths
C11|5f7dce0|extending one element's path altered another's
C14|ed1c15d|directory requests by path used the unqualified tag
C13|d4a7f89|NewRoot had no listeners and no logger; nil listeners were registered
C14|36747f8|nested directory requests lost levels
C07|171d615|encoding errors were swallowed
C08|65dd6fa|a function's template reference was lost
C05|3524bb7|nested containers were copied at each level, making decoding quadratic
C05|2f8ec4d|deep nesting exhausted the stack
C05|04c46a1|printing was quadratic
C12|14ba4f6|updates by path did not reach elements announced by number and vice versa
C12|ef5c035|a matrix message without contents reset the matrix to defaults
C12|26393f1|a message with some properties erased the others
C12|3fb7bfe|matrix signals and connections were not merged on update
C27|5d650b4|logger levels were compared the wrong way round
C13|ce598d0|the parent's listeners were not told about an update of a known child by path
C13|936c23e|tree listeners were told although the message was rejected at its end
C16|88cc099|NewQualifiedMatrix accepted illegal type and mode and ignored them
C17|d7931d2|reading a frame drained it
C19|fa8a659|a start byte right after a stray escape byte was lost
C17|8b859be|GetAt exposed the frame's own buffer
C20|f5ca502|a multi-frame message was delivered although a part of it had been rejected
C26|8ac34e8|listener tables were accessed without lock
C24|3c1a4b1|the request queue was accessed without lock and unbounded/blocking
C21|2afc683|keep-alive answers waited behind queued requests
C25|9b7be58|connection state was inconsistent after loss of the peer or disconnect
C24|579a6b0|requests were taken off the queue after the connection was gone
C23|65c44e9|request timers outlived their requests and could fire after the answer
C22|c6e6f75|elements' listeners ran before the rest of the message was applied, so that a fetch could end with part of the tree
C22|ffb20d7|a fetch or request begun while a message was being announced took that message for its answer
C22|3848d94|fetching the tree could call back twice, never, or overrun the queue
C31|8a9fee6|the client told its logger of an absent error for every message received, so that a logger reading the error crashed the client
C07|2d83e58|octets values were written as BIT STRING
C07|7a2348d|matrix properties used wrong context numbers: mode shared the description's and target count the type's
C14|00f16ed|field flags lacked the protocol's values, so 'all fields' requested something else
C07|4f4bcd5|children received by path were encoded by path inside their numbered parent
C05|626ba9b|printing copied nested elements once per level, taking minutes for deep and wide trees
C03|3ab0706|a null was written without its length byte, so that what followed could not be read
C25|2db53af|connecting to an IPv6 address failed, as it was not put in brackets
C32|62ff246|a printed parameter left out its access, format, enumeration, factor, step, is-online, type and stream identifier when they were set, and showed them when they were not
C32|29a3c48|a printed matrix lost everything but its mode
C16|7e13467|a received matrix type of 256 read as 0 (one-to-n), and any other undefined type or mode was taken over
C10|7b59854|a received argument description of type 257 read as one of type 1
C32|7b131fc|octets below 16 were printed with one digit, so that different values printed alike
C32|66a2505|reals were printed with six digits after the point, so that different values (0 and 1e-7) printed alike
""".strip().splitlines()]
with open(os.path.join(root, "known_findings.jsonl"), "w") as f:
    for p, k, where, what in KNOWN:
        f.write(json.dumps({"status": "known", "property": p, "key": k, "where": where, "what": what}) + "\n")
    for p, c, what in FIXED:
        f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "what": "fixed: property=%s %s %s" % (p, c, what)}) + "\n")
