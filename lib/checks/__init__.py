"""property -> (module, function)"""
CHECKS = {
    'C01': ('wire_checks', 'c01'), 'C02': ('wire_checks', 'c02'), 'C03': ('wire_checks', 'c03'), 'C04': ('wire_checks', 'c04'),
    'C06': ('gen_checks', 'c06'), 'C07': ('gen_checks', 'c07'), 'C08': ('gen_checks', 'c08'),
    'C05': ('wire_checks', 'c05'), 'C09': ('content_checks', 'c09'), 'C10': ('content_checks', 'c10'),
    'C19': ('schema_checks', 'c19'), 'C20': ('schema_checks', 'c20'),
    'C14': ('library_checks', 'c14'), 'C15': ('library_checks', 'c15'), 'C16': ('library_checks', 'c16'),
    'C21': ('value_checks', 'c21'), 'C23': ('refusal_checks', 'c23'),
    'C18': ('compiler_checks', 'c18'),
    'C22': ('thread_checks', 'c22'),
    'C17': ('print_checks', 'c17'),
    'C11': ('content_checks', 'c11'), 'C12': ('wire_checks', 'c12'), 'C13': ('wire_checks', 'c13'),
}
