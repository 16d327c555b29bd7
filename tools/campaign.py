import sys, os, random, subprocess, shutil, json, time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); import mutate
from concurrent.futures import ThreadPoolExecutor
REL={'FakeFunction.py':['C25','C28'],'HumanChoiceUser2.py':['C21','C30'],'gamma_dist.py':['C26'],'human_choice_model.py':['C20'],'mcmc_sampling.py':['C27','C30'],
'pareto.py':['C19'],'preference_pairs.py':['C24'],'probability_utility.py':['C26'],'sample_utility.py':['C23'],'synthetic_user.py':['C21','C28','C30'],'training_utility.py':['C22','C31'],
'KernelFunc.py':['C09','C08','C10','C28'],'GP.py':['C04','C05','C03','C28'],'Model.py':['C01','C14','C18','C15'],'PreferenceGP.py':['C06','C03','C05','C31','C18','C29','C02','C28'],
'PreferenceLinear.py':['C07','C03','C05','C31','C29'],'PreferenceModel.py':['C01','C02','C06','C07','C31','C10','C03','C28','C13'],'ProbitBase.py':['C12','C11','C10'],
'BayesInfoGain.py':['C34','C14','C15'],'AcquisitionBase.py':['C16','C23','C14','C17','C18'],'AcquisitionSelection.py':['C16','C14','C17'],'AbsAcquisition.py':['C16','C14','C17'],
'MixedStrategy.py':['C17','C14','C18','C16'],'RateChooseLearner.py':['C17','C14','C16','C18','C30'],'ActiveLearner.py':['C14','C15','C34','C18'],
'AbsBayesInfo.py':['C34','C14'],'MixedTypeDecision.py':['C17','C14','C16'],
'experiment_helper.py':['C33','C32'],'single_experiment.py':['C33']}
def rel(f):
    b=os.path.basename(f)
    if b in REL: return REL[b]
    if 'kernels' in f: return ['C09','C08','C10','C28']
    if 'probits' in f: return ['C12','C11','C13','C10','C31','C06','C34']
    return ['C15','C14','C17','C18','C28','C30']
seed=int(sys.argv[1]); n=int(sys.argv[2]); only=sys.argv[3:] 
rng=random.Random(seed)
ms=[]
import glob
for d,fs in [(d,fs) for d,_,fs in os.walk(mutate.ROOT)]+[('/repo/experiments',['experiment_helper.py','single_experiment.py'])]:
    for f in sorted(fs):
        if f.endswith('.py') and f not in('__init__.py','ProbabilityLearner.py'):
            p=os.path.join(d,f)
            if only and f not in only: continue
            m=[(p,)+x for x in mutate.mutants(p)]
            rng.shuffle(m); ms.append(m)
# spread evenly over files, with big files getting more
pool=[]
for m in ms: pool+=m[:max(6,len(m)//8)] if not only else m
rng.shuffle(pool); pool=pool[:n]
out=open('/tmp/campaign-%d.log'%seed,'a')
def one(k):
    p,kind,line,old,new,src=pool[k]
    tmp='/tmp/mut/%d-%d'%(seed,k)
    shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    shutil.copytree('/repo/src',tmp+'/src',ignore=shutil.ignore_patterns('__pycache__'))
    os.makedirs(tmp+'/experiments')
    for g in glob.glob('/repo/experiments/*'):
        if os.path.isfile(g): shutil.copy(g,tmp+'/experiments/')
    open(tmp+p[len('/repo'):],'w').write(src)
    t=time.time(); res='SURVIVED'
    for c in rel(p):
        try:
            r=subprocess.run(['bash','-c','ulimit -v 12000000; exec /tmp/vcopy/check.sh '+c],env=dict(os.environ,LOP_REPO=tmp,VERIF_SEED='1',VERIF_TIER='quick',VERIF_EVIDENCE=tmp),capture_output=True,text=True,timeout=600)
            rc=r.returncode
        except subprocess.TimeoutExpired: rc=124
        if rc!=0:
            res='%s rc=%d'%(c,rc); break
    shutil.rmtree(tmp,ignore_errors=True)
    out.write('%-26s %s:%d %s | %s -> %s  (%.0fs)\n'%(res,p[len('/repo/'):],line,kind,old.replace('\n','\\n')[:110],new.replace('\n','\\n')[:110],time.time()-t)); out.flush()
with ThreadPoolExecutor(int(os.environ.get("NW","2"))) as ex: list(ex.map(one,range(len(pool))))
out.write('DONE\n')
