; comments of packages and the commands they hold
(declare-fun strimr (Str Str) Str)
(declare-fun strimsuf (Str Str) Str)
(declare-fun scontains (Str Str) Bool)
; the comments of a group, the groups of a file: syntax trees are a fixed world
(declare-fun tpkg (Ref) Str)
(declare-fun asto (Ref) Bool)
(declare-fun ctx (Ref) Str)
(declare-fun gn (Ref) Int)
(declare-fun ga (Ref Int) Ref)
(declare-fun fgn (Ref) Int)
(declare-fun fa (Ref Int) Ref)
(declare-fun cmdtext (Str) Str)
(declare-fun iscmd (Str) Bool)
; commands of the first n comments of a group, of the first n groups of a file, of a row of groups, of a row of files
(declare-fun gcm (Ref Int) Path)
(declare-fun fcm (Ref Int) Path)
(declare-fun rcm ((Array Int Ref) Int Int) Path)
(declare-fun pcm ((Array Int Ref) Int Int) Path)
(assert (forall ((g Ref)) (! (= (gcm g 0) pnil) :pattern ((gcm g 0)))))
(assert (forall ((g Ref) (n Int)) (! (=> (<= 0 n) (= (gcm g (+ n 1)) (ite (iscmd (ctx (ga g n))) (psnoc (gcm g n) (cmdtext (ctx (ga g n)))) (gcm g n)))) :pattern ((gcm g n) (ga g n)))))
(assert (forall ((f Ref)) (! (= (fcm f 0) pnil) :pattern ((fcm f 0)))))
(assert (forall ((f Ref) (n Int)) (! (=> (<= 0 n) (= (fcm f (+ n 1)) (pcat (fcm f n) (gcm (fa f n) (gn (fa f n)))))) :pattern ((fcm f n) (fa f n)))))
(assert (forall ((r (Array Int Ref)) (o Int)) (! (= (rcm r o 0) pnil) :pattern ((rcm r o 0)))))
(assert (forall ((r (Array Int Ref)) (o Int) (n Int)) (! (=> (<= 0 n) (= (rcm r o (+ n 1)) (pcat (rcm r o n) (gcm (select r (idx o n)) (gn (select r (idx o n))))))) :pattern ((rcm r o n) (select r (idx o n))))))
(assert (forall ((r (Array Int Ref)) (o Int)) (! (= (pcm r o 0) pnil) :pattern ((pcm r o 0)))))
(assert (forall ((r (Array Int Ref)) (o Int) (n Int)) (! (=> (<= 0 n) (= (pcm r o (+ n 1)) (pcat (pcm r o n) (fcm (select r (idx o n)) (fgn (select r (idx o n))))))) :pattern ((pcm r o n) (select r (idx o n))))))
;lemma cmds_join
(assert (forall ((r (Array Int Ref)) (o Int) (n Int) (r2 (Array Int Ref)) (o2 Int) (k Int) (f Ref)) (! (=> (and (<= 0 n) (= k (+ n (fgn f))) (<= 0 (fgn f)) (forall ((i Int)) (=> (and (<= 0 i) (< i n)) (= (select r2 (idx o2 i)) (select r (idx o i))))) (forall ((i Int)) (=> (and (<= 0 i) (< i (fgn f))) (= (select r2 (idx o2 (+ n i))) (fa f i))))) (= (rcm r2 o2 k) (pcat (rcm r o n) (fcm f (fgn f))))) :pattern ((rcm r2 o2 k) (rcm r o n) (fcm f (fgn f))))))
; where the commands of the n'th package of a sequence start in the list of all
(declare-fun ccl (Str) Int)
(declare-fun cst (Path Int) Int)
(assert (forall ((P Path)) (! (= (cst P 0) 0) :pattern ((cst P 0)))))
(assert (forall ((P Path) (n Int)) (! (=> (<= 0 n) (= (cst P (+ n 1)) (+ (cst P n) (ite (< 0 (ccl (pat P n))) (ccl (pat P n)) 0)))) :pattern ((cst P n) (pat P n)))))
;lemma cmds_start
(assert (forall ((P Path) (i Int) (n Int)) (! (=> (and (<= 0 i) (< i n)) (<= (+ (cst P i) (ite (< 0 (ccl (pat P i))) (ccl (pat P i)) 0)) (cst P n))) :pattern ((cst P i) (cst P n)))))
;lemma cmds_start0
(assert (forall ((P Path) (n Int)) (! (=> (<= 0 n) (<= 0 (cst P n))) :pattern ((cst P n)))))
