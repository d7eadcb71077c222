"""Technique and level of the structural checks (read by gen_manifest.py)."""
EFF = 'value numbering of effects by abstract interpretation: the final value of every stored quantity and the result are compared with the reference, sizes symbolic first, then fixed'
STRUCT = {
    'C10': ('dependency closure over the expressions robot_from_file registers, compared with each declared input list (abstract interpretation of the type-checked syntax tree)', 'other',
            'closure computed on listed robot sizes; dependence sets do not vary with size'),
    'C13': (EFF, 'other', 'every vector size; values of parameters symbolic'),
    'C14': (EFF, 'other', 'every vector size; template placeholders symbolic'),
    'C15': (EFF, 'other', 'every number of links; values symbolic'),
    'C16': ('abstract interpretation of the loaders on symbolic documents; every slot is compared with the entry that names it', 'other', '14 shapes of configuration, all numbers symbolic'),
    'C17': ('abstract interpretation: the document a save function writes is reconstructed from its effects and fed to the matching loader', 'other', 'robots of 2 to 6 joints, all values symbolic'),
    'C11': ('abstract interpretation of robot_from_file and the template class on symbolic configurations: the arguments the model registers and the values the class passes are compared slot by slot', 'other', 'listed shapes of symbolic flags, joint types and elastic joints; all numbers symbolic'),
    'C12': ('abstract interpretation of the entry points of the model, in all states of their arguments: the effect on the state and the result are compared with the requested ones', 'other', 'listed robot sizes; values symbolic'),
    'C18': ('abstract interpretation with interval-free bounds obligations: the position of every indexed access of loaders and saves is compared with the size at that point', 'other', 'listed documents (complete, short and overlong lists); sizes fixed, values symbolic'),
    'C22': (EFF, 'other', 'fixed-size helpers, values symbolic; every copy in the repository'),
    'C19': ('constant propagation through the generator, from its command line to the text of the class; the generated class is parsed again and each getter is interpreted', 'other', 'four robots with all registered kinds of functions; names and sizes concrete, values symbolic'),
    'C20': ('constant propagation through the binding generator; the generated module and class are parsed again and matched member by member', 'other', 'four robots with all registered kinds of functions; names concrete'),
    'C21': ('abstract interpretation of main and copy_to over a symbolic file system: the effects of every command line on files are compared with the required ones', 'other', '15 command lines (flags, names, path forms); names concrete, file contents symbolic'),
    'C23': ('effect analysis: reads and writes of every variable with static, thread or shared storage, and of shared YAML handles, in the library, class template and generated class', 'proof', 'all functions; functions of casadi, Eigen, yaml-cpp and std on distinct objects are assumed not to interfere'),
    'C24': ('abstract interpretation with one failing operation at a time: every file operation of every reporting entry point is made to fail and the reported result is read off', 'other', 'one fault at a time; genYAML (marked old, reports nothing) and void members are outside'),
}
