PROPS=[]; TECH={}; NOTE={}; NA={}
def P(id,title,statement,over,qtext,why,files,mech,how,observe=None,note=None):
    assert len(title)<=80,(id,len(title))
    PROPS.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["library API"],hook_needed=None)))
    TECH[id]="property-based testing: "+how
    NOTE[id]=note or "Every generated case satisfied the oracle (counts in the evidence file); inputs outside the generator's classes, and errors below the stated tolerances, are not covered. Trusts the harness's reference computation and the compiler."
def not_applicable(id,reason): NA[id]=reason
