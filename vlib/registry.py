# property -> (python module that decides it, verification level)
REG = {
 'M01': ('matrix', 'model_checking'), 'M02': ('matrix', 'model_checking'), 'M03': ('matrix', 'model_checking'), 'M04': ('matrix', 'model_checking'),
 'T01': ('pool', 'model_checking'), 'T02': ('pool', 'model_checking'),
 'D03': ('traindata', 'model_checking'), 'D01': ('traindata', 'model_checking'), 'D02': ('traindata', 'model_checking'),
 'A01': ('kernels', 'model_checking'),
 'A02': ('kernels', 'model_checking'),
 'A04': ('kernels', 'model_checking'),
 'A05': ('kernels', 'model_checking'),
 'A06': ('kernels', 'model_checking'),
 'G01': ('gradw', 'model_checking'),
 'N01': ('nets', 'model_checking'),
 'N02': ('layers', 'model_checking'),
 'N03': ('drop', 'model_checking'),
 'E01': ('evalq', 'model_checking'), 'E02': ('evalq', 'model_checking'),
 'I01': ('files', 'model_checking'),
 'R01': ('rngq', 'model_checking'),
 'W01': ('winit', 'model_checking'),
 'N04': ('gradchk', 'model_checking'),
 'W02': ('lsuv', 'model_checking'),
 'S01': ('serq', 'model_checking'),
 'A03': ('kernels', 'model_checking'),
}
