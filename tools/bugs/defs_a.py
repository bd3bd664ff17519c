B['S01']=dict(prop='V01',edits=[('src/PetriEngine/Stubborn/StubbornSet.cpp','''            if (invariants()[finv].inhibitor) {
                presetOf(invariants()[finv].place, make_closure);
            } else {''','''            if (invariants()[finv].inhibitor && invariants()[finv].tokens > 1) {
                presetOf(invariants()[finv].place, make_closure);
            } else {''')],needs='partial-order reduction on a net where an interesting transition is inhibited (weight 1) and the producer of the inhibitor place matters',what='stubborn set closure forgets the producers of inhibitor places')
B['S02']=dict(prop='V04',edits=[('src/PetriEngine/Simplification/LinearProgram.cpp','''                    if (ires == GLP_ETMLIM)
                    {
                        _result = result_t::UKNOWN;
                        // std::cerr << "glpk mip: timeout" << std::endl;
                    }
                    else if (ires == 0)''','''                    if (ires == 0 || ires == GLP_ETMLIM)''')],needs='the integer solver running into its time limit during query simplification',what='an integer programme that timed out without a solution counts as impossible, so the query is simplified to a constant')
B['S03']=dict(prop='V02',edits=[('src/CTL/Algorithm/CertainZeroFPA.cpp','''            if (lastUndecided->assignment == ZERO && e->processed) {
                finalAssign(e, ONE);''','''            if (lastUndecided->assignment == ZERO) {
                finalAssign(e, ONE);''')],needs='a negated sub-formula whose configuration was already being explored (assigned ZERO) when the negation edge is reached first time',what='a negation edge is decided before the component below it is finished')
B['S04']=dict(prop='V07',edits=[('src/PetriEngine/Structures/AlignedEncoder.cpp','''    if(_places < 256) _psize = 1;''','''    if(_places <= 256) _psize = 1;''')],needs='a net with exactly 256 places whose markings are stored in the sparse format',what='the sparse encoding')
B['S05']=dict(prop='V05',edits=[('src/PetriEngine/Reducer.cpp','''                if(parent->_places[pPost.place].inhib || pPre == pPost.place || placeInQuery[pPost.place] > 0)''','''                if(parent->_places[pPost.place].inhib || pPre == pPost.place || placeInQuery[pPost.place] > 1)''')],needs='rule A on a transition whose output place occurs exactly once in the query',what='agglomeration hides intermediate markings of a place the query looks at')
B['S06']=dict(prop='V06',edits=[('src/PetriEngine/Reducer.cpp','''                    auto times = getOutArc(parent->_transitions[pp], pPre)->weight / w;
                    for(size_t i = 0; i < times; ++i)
                        _postfire[*prefire].push_back(tname);''','''                    _postfire[*prefire].push_back(tname);''')],needs='trace output after rule A agglomerated a place whose producer puts a multiple of the consumed weight',what='trace reconstruction fires the agglomerated transition once instead of several times')
B['S04']=dict(prop='V07',edits=[('src/PetriEngine/Structures/AlignedEncoder.cpp','''    if(ntokens < 256) size = 1;''','''    if(ntokens <= 256) size = 1;''')],needs='a marking whose largest token count is exactly 256',what='256 tokens are stored in one byte, so distinct markings coincide')
B['S06']=dict(prop='V06',edits=[('include/PetriEngine/Reachability/ReachabilitySearch.h','''                            // Save the current queued transition
                            states.savePreviousTransition();

                            // We have to pretend that the current candidate transition is fired.
                            // Then checkQueries will work for this candidate. In particular, it will
                            // be able to print the correct trace.
                            states.setHistory(static_cast<size_t>(generator.fired()));
''','''                            // We have to pretend that the current candidate transition is fired.
                            // Then checkQueries will work for this candidate. In particular, it will
                            // be able to print the correct trace.
                            states.setHistory(static_cast<size_t>(generator.fired()));

                            // Save the current queued transition
                            states.savePreviousTransition();
''')],needs='a traced random walk of at least two steps in which a rejected candidate is evaluated after the chosen one',what='the recorded step is that of the rejected candidate, so the printed trace cannot be fired')
