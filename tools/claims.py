CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20']
TECH = {'*': 'contracts on the real C++ functions, VC generation from the clang AST, discharged by z3; failed obligations replayed on the real code'}
NOTE = {'*': 'Obligations are regenerated from the current source on every run and proved for all inputs and iterations; STL models and listed assumptions are trusted; the replay harness is bounded and only adds alarms with a concrete input.'}
NA = {'C21': 'The race between start-up of the monitor/notifier sockets and the first messages lies in libzmq\'s asynchronous connect and in thread timing; sequential function contracts cannot express it and broker_core.cpp does not compile here (spdlog API mismatch).'}
