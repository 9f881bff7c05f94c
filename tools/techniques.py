SESSION = 'typestate dataflow: path-sensitive abstract interpretation of the SSA form, composed with a protocol automaton, to a fixpoint'
CODEC = 'abstract interpretation of the SSA form over symbolic byte sequences and linear constraints, with loop generalisation, to a fixpoint; compared with a reference encoding'
LOCKS = 'lockset and lock-order analysis on top of the abstract interpretation of the SSA form'
CONFIG = 'abstract interpretation of the SSA form over connection strings with symbolic parts; dataflow of the parts to the dial, TLS and INIT sites'
TAINT = 'taint (information flow) analysis by abstract interpretation of the SSA form: connection string and password to log, error and message sinks'
T = {'C01': CODEC, 'C02': CODEC, 'C03': CODEC, 'C04': CODEC, 'C05': CODEC, 'C06': CODEC, 'C07': CODEC, 'C08': CODEC, 'C30': CODEC, 'C32': 'alias analysis by abstract interpretation of the SSA form: memory shared between arguments, results and the library\'s state', 'C21': LOCKS, 'C22': CONFIG, 'C23': TAINT, 'C24': CONFIG, 'C25': SESSION, 'C26': 'abstract interpretation of the SSA form over symbolic counters', 'C27': SESSION, 'C28': 'exhaustive abstract interpretation of the SSA form over log levels and log sites'}
DEFNOTE = 'Holds for every call sequence, server answer and I/O fault the environment automata allow, computed to a fixpoint over the merged abstract states; trusts the SSA builder, the models of library functions and the automata (see DESIGN.md for the bounds).'
CNOTE = 'Holds for all numbers, string contents and lengths, chunk sizes and read splits in the ranges given in the assumptions, with unknowns kept symbolic; nested values to the depth and kinds given there. Trusts the SSA builder and the models of library functions (see DESIGN.md).'
NOTE = {p: CNOTE for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C30', 'C32')}
NOTE.update({p: 'Holds for the connection strings of the grammar given in DESIGN.md, whose user, password, host, timeout and file names are unknowns, and for every failure of the file, certificate and dial functions. Trusts the SSA builder and the models of net/url, crypto/tls, fmt and log.' for p in ('C22', 'C23', 'C24')})
NOTE['C28'] = 'Holds for the level names given in DESIGN.md (each recognised one in four spellings, twelve others) and every log function. Trusts the SSA builder and the models of fmt and log.'
NOTE['C33'] = 'Holds for three users one after another of pools of one and two connections, any timeout they set, and connections lost in use or idle; the codec is the real one. Trusts the SSA builder, the models of library functions and the network automaton.'
NA = {
 'C31': 'A bound on wall-clock time over an unbounded number of reads by a slow peer: a quantity no static argument here bounds. C12 decides that every single operation is bounded.',
}
