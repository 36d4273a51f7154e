// generated by tools/gen_like.py
use likesut::*;
pub fn all(v: &mut Vec<Ty>) {
    v.push(Ty::of::<(((Tri,bool,),Tri,),Option<[Never;0]>,((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),Option<[Never;0]>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),Tri,(),)>("((),(),Tri,(),)"));
    v.push(Ty::of::<((),(Tri,),)>("((),(Tri,),)"));
    v.push(Ty::of::<((),Never,Never,)>("((),Never,Never,)"));
    v.push(Ty::of::<((),One,)>("((),One,)"));
    v.push(Ty::of::<((),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("((),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<((),One,Five,(),One,Five,)>("((),One,Five,(),One,Five,)"));
    v.push(Ty::of::<((),Result<Never,Tri>,(),)>("((),Result<Never,Tri>,(),)"));
    v.push(Ty::of::<((),Result<Tri,bool>,)>("((),Result<Tri,bool>,)"));
    v.push(Ty::of::<((),Tri,Tri,Two,)>("((),Tri,Tri,Two,)"));
    v.push(Ty::of::<((),Two,(),Wide,(),)>("((),Two,(),Wide,(),)"));
    v.push(Ty::of::<((),Two,Tri,Tri,)>("((),Two,Tri,Tri,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<((),[Tri;0],)>("((),[Tri;0],)"));
    v.push(Ty::of::<((),[Tri;3],(),)>("((),[Tri;3],(),)"));
    v.push(Ty::of::<((),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)>("((),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<((),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)>("((),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Option<[Never;1]>,(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),Option<[Never;1]>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Tri,),(),(Tri,),)>("((Tri,),(),(Tri,),)"));
    v.push(Ty::of::<((Tri,),(),)>("((Tri,),(),)"));
    v.push(Ty::of::<((Tri,),(Tri,),(Tri,),)>("((Tri,),(Tri,),(Tri,),)"));
    v.push(Ty::of::<((Tri,),[Tri;0],(Tri,),)>("((Tri,),[Tri;0],(Tri,),)"));
    v.push(Ty::of::<((Tri,),[Tri;3],)>("((Tri,),[Tri;3],)"));
    v.push(Ty::of::<((bool,Tri,),Option<()>,(bool,Tri,),)>("((bool,Tri,),Option<()>,(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Option<Never>,)>("((bool,Tri,),Option<Never>,)"));
    v.push(Ty::of::<((bool,Tri,),bool,(bool,Tri,),)>("((bool,Tri,),bool,(bool,Tri,),)"));
    v.push(Ty::of::<(D17,Four,)>("(D17,Four,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),)>("(Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,)>("(Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(Five,(),bool,)>("(Five,(),bool,)"));
    v.push(Ty::of::<(Five,D17,)>("(Five,D17,)"));
    v.push(Ty::of::<(Five,Never,Never,)>("(Five,Never,Never,)"));
    v.push(Ty::of::<(Five,bool,(),)>("(Five,bool,(),)"));
    v.push(Ty::of::<(Five,bool,)>("(Five,bool,)"));
    v.push(Ty::of::<(Four,)>("(Four,)"));
    v.push(Ty::of::<(Four,Two,)>("(Four,Two,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(H62,Wide,)>("(H62,Wide,)"));
    v.push(Ty::of::<(Never,(),Tri,)>("(Never,(),Tri,)"));
    v.push(Ty::of::<(Never,(Tri,),Never,)>("(Never,(Tri,),Never,)"));
    v.push(Ty::of::<(Never,Four,)>("(Never,Four,)"));
    v.push(Ty::of::<(Never,Never,(),)>("(Never,Never,(),)"));
    v.push(Ty::of::<(Never,Option<bool>,)>("(Never,Option<bool>,)"));
    v.push(Ty::of::<(Never,Option<bool>,Never,)>("(Never,Option<bool>,Never,)"));
    v.push(Ty::of::<(Never,Tri,bool,)>("(Never,Tri,bool,)"));
    v.push(Ty::of::<(Never,bool,bool,)>("(Never,bool,bool,)"));
    v.push(Ty::of::<(One,(),)>("(One,(),)"));
    v.push(Ty::of::<(One,Tri,)>("(One,Tri,)"));
    v.push(Ty::of::<(One,Two,Tri,(),bool,One,)>("(One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)>("(One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)"));
    v.push(Ty::of::<(Option<()>,Option<Tri>,)>("(Option<()>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<()>,Result<Never,Tri>,)>("(Option<()>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Option<()>,Result<Tri,bool>,Option<()>,)>("(Option<()>,Result<Tri,bool>,Option<()>,)"));
    v.push(Ty::of::<(Option<Never>,(),Option<Never>,)>("(Option<Never>,(),Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Never,)>("(Option<Never>,Never,)"));
    v.push(Ty::of::<(Option<Never>,Result<Tri,bool>,)>("(Option<Never>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Option<Never>,[bool;2],)>("(Option<Never>,[bool;2],)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,(Result<Never,Never>,bool,),Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,(Result<Never,Never>,bool,),Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Option<[Never;0]>,Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,Option<[Never;0]>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Option<[Never;1]>,)>("(Option<Result<bool,Tri>>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>,)>("(Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Option<Tri>,Option<bool>,)>("(Option<Tri>,Option<bool>,)"));
    v.push(Ty::of::<(Option<Tri>,Option<bool>,Option<Tri>,)>("(Option<Tri>,Option<bool>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,bool,Option<Tri>,)>("(Option<Tri>,bool,Option<Tri>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,)>("(Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,Result<Option<Never>,Option<bool>>,Option<[Never;0]>,)>("(Option<[Never;0]>,Result<Option<Never>,Option<bool>>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,[(bool,Tri,);2],Option<[Never;0]>,)>("(Option<[Never;0]>,[(bool,Tri,);2],Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;0]>,[Option<()>;4],)>("(Option<[Never;0]>,[Option<()>;4],)"));
    v.push(Ty::of::<(Option<[Never;1]>,((Tri,bool,),Tri,),)>("(Option<[Never;1]>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(Option<[Never;1]>,Option<[Never;1]>,Option<[Never;1]>,)>("(Option<[Never;1]>,Option<[Never;1]>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<bool>,Option<Tri>,)>("(Option<bool>,Option<Tri>,)"));
    v.push(Ty::of::<(Option<bool>,Option<Tri>,Option<bool>,)>("(Option<bool>,Option<Tri>,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,Result<Never,Tri>,Option<bool>,)>("(Option<bool>,Result<Never,Tri>,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,[bool;2],Option<bool>,)>("(Option<bool>,[bool;2],Option<bool>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],),)>("(Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,Result<Option<Never>,Option<bool>>,Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,[Option<()>;4],)>("(Result<(Tri,bool,),[bool;3]>,[Option<()>;4],)"));
    v.push(Ty::of::<(Result<Never,Tri>,Result<bool,()>,Result<Never,Tri>,)>("(Result<Never,Tri>,Result<bool,()>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Tri,)>("(Result<Never,Tri>,Tri,)"));
    v.push(Ty::of::<(Result<Never,Tri>,Tri,Result<Never,Tri>,)>("(Result<Never,Tri>,Tri,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>,)>("(Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,[(bool,Tri,);2],)>("(Result<Option<Never>,Option<bool>>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<(Result<Tri,bool>,(),)>("(Result<Tri,bool>,(),)"));
    v.push(Ty::of::<(Result<Tri,bool>,Option<bool>,Result<Tri,bool>,)>("(Result<Tri,bool>,Option<bool>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,Result<bool,()>,Result<Tri,bool>,)>("(Result<Tri,bool>,Result<bool,()>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,[Tri;3],)>("(Result<Tri,bool>,[Tri;3],)"));
    v.push(Ty::of::<(Result<bool,()>,Never,Result<bool,()>,)>("(Result<bool,()>,Never,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Option<bool>,)>("(Result<bool,()>,Option<bool>,)"));
    v.push(Ty::of::<(Result<bool,()>,Result<Tri,bool>,)>("(Result<bool,()>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<bool,()>,[bool;2],Result<bool,()>,)>("(Result<bool,()>,[bool;2],Result<bool,()>,)"));
    v.push(Ty::of::<(Tri,(),Never,)>("(Tri,(),Never,)"));
    v.push(Ty::of::<(Tri,(),Two,(),)>("(Tri,(),Two,(),)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),)>("(Tri,(),bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(Tri,Five,bool,)>("(Tri,Five,bool,)"));
    v.push(Ty::of::<(Tri,Never,)>("(Tri,Never,)"));
    v.push(Ty::of::<(Tri,Option<Tri>,Tri,)>("(Tri,Option<Tri>,Tri,)"));
    v.push(Ty::of::<(Tri,Tri,(),(),)>("(Tri,Tri,(),(),)"));
    v.push(Ty::of::<(Tri,Tri,Tri,)>("(Tri,Tri,Tri,)"));
    v.push(Ty::of::<(Tri,Tri,Two,Two,)>("(Tri,Tri,Two,Two,)"));
    v.push(Ty::of::<(Tri,Two,Two,Tri,)>("(Tri,Two,Two,Tri,)"));
    v.push(Ty::of::<(Tri,Wide,)>("(Tri,Wide,)"));
    v.push(Ty::of::<(Tri,bool,Tri,)>("(Tri,bool,Tri,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Two,(),Two,(),)>("(Two,(),Two,(),)"));
    v.push(Ty::of::<(Two,(),Wide,(),Two,(),)>("(Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<(Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("(Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<(Two,Four,)>("(Two,Four,)"));
    v.push(Ty::of::<(Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)>("(Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Tri,Two,)>("(Two,Tri,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Two,Tri,Tri,)>("(Two,Two,Tri,Tri,)"));
    v.push(Ty::of::<(Wide,(),)>("(Wide,(),)"));
    v.push(Ty::of::<(Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)>("(Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<(Wide,Two,)>("(Wide,Two,)"));
    v.push(Ty::of::<([Option<()>;4],((Tri,bool,),Tri,),[Option<()>;4],)>("([Option<()>;4],((Tri,bool,),Tri,),[Option<()>;4],)"));
    v.push(Ty::of::<([Option<()>;4],(Option<bool>,[Tri;2],),)>("([Option<()>;4],(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<([Option<()>;4],Result<(Tri,bool,),[bool;3]>,[Option<()>;4],)>("([Option<()>;4],Result<(Tri,bool,),[bool;3]>,[Option<()>;4],)"));
    v.push(Ty::of::<([Tri;0],(),[Tri;0],)>("([Tri;0],(),[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],(bool,Tri,),[Tri;0],)>("([Tri;0],(bool,Tri,),[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],Option<()>,)>("([Tri;0],Option<()>,)"));
    v.push(Ty::of::<([Tri;0],Result<Tri,bool>,)>("([Tri;0],Result<Tri,bool>,)"));
    v.push(Ty::of::<([Tri;0],Result<bool,()>,[Tri;0],)>("([Tri;0],Result<bool,()>,[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],bool,)>("([Tri;0],bool,)"));
    v.push(Ty::of::<([Tri;3],(Tri,),)>("([Tri;3],(Tri,),)"));
    v.push(Ty::of::<([Tri;3],)>("([Tri;3],)"));
    v.push(Ty::of::<([Tri;3],Result<bool,()>,)>("([Tri;3],Result<bool,()>,)"));
    v.push(Ty::of::<([Tri;3],[Tri;0],)>("([Tri;3],[Tri;0],)"));
    v.push(Ty::of::<([bool;2],Never,[bool;2],)>("([bool;2],Never,[bool;2],)"));
    v.push(Ty::of::<([bool;2],Option<Tri>,)>("([bool;2],Option<Tri>,)"));
    v.push(Ty::of::<([bool;2],Result<Never,Tri>,[bool;2],)>("([bool;2],Result<Never,Tri>,[bool;2],)"));
    v.push(Ty::of::<([bool;2],Tri,[bool;2],)>("([bool;2],Tri,[bool;2],)"));
    v.push(Ty::of::<(bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("(bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(bool,(),Tri,)>("(bool,(),Tri,)"));
    v.push(Ty::of::<(bool,D17,)>("(bool,D17,)"));
    v.push(Ty::of::<(bool,Never,(),)>("(bool,Never,(),)"));
    v.push(Ty::of::<(bool,Option<Tri>,)>("(bool,Option<Tri>,)"));
    v.push(Ty::of::<(bool,Option<bool>,bool,)>("(bool,Option<bool>,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,)>("(bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,)>("(bool,bool,)"));
    v.push(Ty::of::<(bool,bool,Tri,bool,bool,)>("(bool,bool,Tri,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,)>("(bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<D17>("D17"));
    v.push(Ty::of::<Option<((Tri,bool,),Tri,)>>("Option<((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Option<D17>>("Option<D17>"));
    v.push(Ty::of::<Option<Option<D17>>>("Option<Option<D17>>"));
    v.push(Ty::of::<Option<Option<Option<D17>>>>("Option<Option<Option<D17>>>"));
    v.push(Ty::of::<Option<Option<Option<Two>>>>("Option<Option<Option<Two>>>"));
    v.push(Ty::of::<Option<Option<bool>>>("Option<Option<bool>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<[(bool,Tri,);2]>>>>("Option<Result<((Tri,bool,),Tri,),Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<[(bool,Tri,);2]>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<Option<[Never;0]>,Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<(Result<Never,Never>,bool,)>>>>("Option<Result<Option<[Never;0]>,Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;0]>,Option<Option<[Never;1]>>>>>("Option<Result<Option<[Never;0]>,Option<Option<[Never;1]>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<Option<Result<bool,Tri>>>>>>("Option<Result<Option<[Never;1]>,Option<Option<Result<bool,Tri>>>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<Result<(Tri,bool,),[bool;3]>,Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<[(bool,Tri,);2]>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<[Option<()>;4]>>>>("Option<Result<[(bool,Tri,);2],Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<[Option<()>;4]>>>>("Option<Result<[Option<()>;4],Option<[Option<()>;4]>>>"));
    v.push(Ty::of::<Option<bool>>("Option<bool>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),[(bool,Tri,);2]>>("Result<((Tri,bool,),Tri,),[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<((Tri,bool,),Tri,),[Option<()>;4]>>("Result<((Tri,bool,),Tri,),[Option<()>;4]>"));
    v.push(Ty::of::<Result<(),(Tri,)>>("Result<(),(Tri,)>"));
    v.push(Ty::of::<Result<(),Never>>("Result<(),Never>"));
    v.push(Ty::of::<Result<(),Wide>>("Result<(),Wide>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>>>("Result<(Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),((Tri,bool,),Tri,)>>("Result<(Result<Never,Never>,bool,),((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),Option<[Never;1]>>>("Result<(Result<Never,Never>,bool,),Option<[Never;1]>>"));
    v.push(Ty::of::<Result<(Tri,),Option<Tri>>>("Result<(Tri,),Option<Tri>>"));
    v.push(Ty::of::<Result<(Tri,),Result<Never,Tri>>>("Result<(Tri,),Result<Never,Tri>>"));
    v.push(Ty::of::<Result<(bool,Tri,),Option<bool>>>("Result<(bool,Tri,),Option<bool>>"));
    v.push(Ty::of::<Result<D17,Four>>("Result<D17,Four>"));
    v.push(Ty::of::<Result<D17,bool>>("Result<D17,bool>"));
    v.push(Ty::of::<Result<Five,One>>("Result<Five,One>"));
    v.push(Ty::of::<Result<Four,Four>>("Result<Four,Four>"));
    v.push(Ty::of::<Result<Four,bool>>("Result<Four,bool>"));
    v.push(Ty::of::<Result<H62,One>>("Result<H62,One>"));
    v.push(Ty::of::<Result<H63,Four>>("Result<H63,Four>"));
    v.push(Ty::of::<Result<Never,()>>("Result<Never,()>"));
    v.push(Ty::of::<Result<Never,Option<()>>>("Result<Never,Option<()>>"));
    v.push(Ty::of::<Result<Never,Result<Never,Tri>>>("Result<Never,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<Never,[Tri;3]>>("Result<Never,[Tri;3]>"));
    v.push(Ty::of::<Result<One,H63>>("Result<One,H63>"));
    v.push(Ty::of::<Result<Option<()>,Never>>("Result<Option<()>,Never>"));
    v.push(Ty::of::<Result<Option<()>,[bool;2]>>("Result<Option<()>,[bool;2]>"));
    v.push(Ty::of::<Result<Option<Never>,(bool,Tri,)>>("Result<Option<Never>,(bool,Tri,)>"));
    v.push(Ty::of::<Result<Option<Never>,Result<Never,Tri>>>("Result<Option<Never>,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<Option<Never>,Tri>>("Result<Option<Never>,Tri>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,[(bool,Tri,);2]>>("Result<Option<Result<bool,Tri>>,[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<Option<Tri>,Option<Never>>>("Result<Option<Tri>,Option<Never>>"));
    v.push(Ty::of::<Result<Option<Tri>,Result<Tri,bool>>>("Result<Option<Tri>,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,((Tri,bool,),Tri,)>>("Result<Option<[Never;0]>,((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,Option<[Never;0]>>>("Result<Option<[Never;0]>,Option<[Never;0]>>"));
    v.push(Ty::of::<Result<Option<bool>,(bool,Tri,)>>("Result<Option<bool>,(bool,Tri,)>"));
    v.push(Ty::of::<Result<Option<bool>,Option<()>>>("Result<Option<bool>,Option<()>>"));
    v.push(Ty::of::<Result<Option<bool>,Result<Tri,bool>>>("Result<Option<bool>,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<Option<bool>,bool>>("Result<Option<bool>,bool>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,(bool,Tri,)>>("Result<Result<Never,Tri>,(bool,Tri,)>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,Tri>>("Result<Result<Never,Tri>,Tri>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,()>>("Result<Result<Tri,bool>,()>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,Result<Never,Tri>>>("Result<Result<Tri,bool>,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,[Tri;3]>>("Result<Result<Tri,bool>,[Tri;3]>"));
    v.push(Ty::of::<Result<Result<bool,()>,Option<bool>>>("Result<Result<bool,()>,Option<bool>>"));
    v.push(Ty::of::<Result<Tri,One>>("Result<Tri,One>"));
    v.push(Ty::of::<Result<Tri,Result<Tri,bool>>>("Result<Tri,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<Tri,[Tri;0]>>("Result<Tri,[Tri;0]>"));
    v.push(Ty::of::<Result<Two,H62>>("Result<Two,H62>"));
    v.push(Ty::of::<Result<Wide,()>>("Result<Wide,()>"));
    v.push(Ty::of::<Result<Wide,Tri>>("Result<Wide,Tri>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],Option<[Never;0]>>>("Result<[(bool,Tri,);2],Option<[Never;0]>>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>>>("Result<[(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<[Option<()>;4],((Tri,bool,),Tri,)>>("Result<[Option<()>;4],((Tri,bool,),Tri,)>"));
    v.push(Ty::of::<Result<[Option<()>;4],Result<(Tri,bool,),[bool;3]>>>("Result<[Option<()>;4],Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<[Tri;0],Never>>("Result<[Tri;0],Never>"));
    v.push(Ty::of::<Result<[Tri;0],[bool;2]>>("Result<[Tri;0],[bool;2]>"));
    v.push(Ty::of::<Result<[Tri;3],(Tri,)>>("Result<[Tri;3],(Tri,)>"));
    v.push(Ty::of::<Result<[Tri;3],Tri>>("Result<[Tri;3],Tri>"));
    v.push(Ty::of::<Result<[bool;2],Option<Never>>>("Result<[bool;2],Option<Never>>"));
    v.push(Ty::of::<Result<bool,()>>("Result<bool,()>"));
    v.push(Ty::of::<Result<bool,(Tri,)>>("Result<bool,(Tri,)>"));
    v.push(Ty::of::<Result<bool,(bool,Tri,)>>("Result<bool,(bool,Tri,)>"));
    v.push(Ty::of::<Result<bool,Option<()>>>("Result<bool,Option<()>>"));
    v.push(Ty::of::<Result<bool,[Tri;3]>>("Result<bool,[Tri;3]>"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>,);2]>("[(((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[();13]>("[();13]"));
    v.push(Ty::of::<[();20]>("[();20]"));
    v.push(Ty::of::<[();28]>("[();28]"));
    v.push(Ty::of::<[();5]>("[();5]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,(Result<Never,Never>,bool,),);2]>("[(Option<Result<bool,Tri>>,(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[(Option<[Never;0]>,(Option<bool>,[Tri;2],),);2]>("[(Option<[Never;0]>,(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[(Option<[Never;0]>,(Result<Never,Never>,bool,),);2]>("[(Option<[Never;0]>,(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,Option<[Never;1]>,);2]>("[(Option<[Never;1]>,Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,),);2]>("[(Result<(Tri,bool,),[bool;3]>,((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[(Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>,);2]>("[(Result<(Tri,bool,),[bool;3]>,Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[(Result<Never,Never>,bool,);2]>("[(Result<Never,Never>,bool,);2]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,),);2]>("[(Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,[(bool,Tri,);2],);2]>("[(Result<Option<Never>,Option<bool>>,[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[([(bool,Tri,);2],(Option<bool>,[Tri;2],),);2]>("[([(bool,Tri,);2],(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[([(bool,Tri,);2],[Option<()>;4],);2]>("[([(bool,Tri,);2],[Option<()>;4],);2]"));
    v.push(Ty::of::<[(bool,Tri,);1]>("[(bool,Tri,);1]"));
    v.push(Ty::of::<[D17;12]>("[D17;12]"));
    v.push(Ty::of::<[D17;5]>("[D17;5]"));
    v.push(Ty::of::<[Five;12]>("[Five;12]"));
    v.push(Ty::of::<[Five;1]>("[Five;1]"));
    v.push(Ty::of::<[Five;27]>("[Five;27]"));
    v.push(Ty::of::<[Five;9]>("[Five;9]"));
    v.push(Ty::of::<[Four;16]>("[Four;16]"));
    v.push(Ty::of::<[Four;23]>("[Four;23]"));
    v.push(Ty::of::<[Four;30]>("[Four;30]"));
    v.push(Ty::of::<[Four;9]>("[Four;9]"));
    v.push(Ty::of::<[Never;12]>("[Never;12]"));
    v.push(Ty::of::<[Never;1]>("[Never;1]"));
    v.push(Ty::of::<[Never;27]>("[Never;27]"));
    v.push(Ty::of::<[Never;4]>("[Never;4]"));
    v.push(Ty::of::<[One;11]>("[One;11]"));
    v.push(Ty::of::<[One;19]>("[One;19]"));
    v.push(Ty::of::<[One;26]>("[One;26]"));
    v.push(Ty::of::<[One;3]>("[One;3]"));
    v.push(Ty::of::<[Option<()>;1]>("[Option<()>;1]"));
    v.push(Ty::of::<[Option<Result<bool,Tri>>;3]>("[Option<Result<bool,Tri>>;3]"));
    v.push(Ty::of::<[Option<Tri>;1]>("[Option<Tri>;1]"));
    v.push(Ty::of::<[Option<bool>;1]>("[Option<bool>;1]"));
    v.push(Ty::of::<[Result<(Tri,bool,),[bool;3]>;3]>("[Result<(Tri,bool,),[bool;3]>;3]"));
    v.push(Ty::of::<[Result<Tri,bool>;1]>("[Result<Tri,bool>;1]"));
    v.push(Ty::of::<[Tri;14]>("[Tri;14]"));
    v.push(Ty::of::<[Tri;21]>("[Tri;21]"));
    v.push(Ty::of::<[Tri;29]>("[Tri;29]"));
    v.push(Ty::of::<[Tri;6]>("[Tri;6]"));
    v.push(Ty::of::<[Two;13]>("[Two;13]"));
    v.push(Ty::of::<[Two;20]>("[Two;20]"));
    v.push(Ty::of::<[Two;28]>("[Two;28]"));
    v.push(Ty::of::<[Two;5]>("[Two;5]"));
    v.push(Ty::of::<[Wide;12]>("[Wide;12]"));
    v.push(Ty::of::<[Wide;1]>("[Wide;1]"));
    v.push(Ty::of::<[Wide;27]>("[Wide;27]"));
    v.push(Ty::of::<[Wide;4]>("[Wide;4]"));
    v.push(Ty::of::<[[Tri;0];0]>("[[Tri;0];0]"));
    v.push(Ty::of::<[[bool;2];0]>("[[bool;2];0]"));
    v.push(Ty::of::<[bool;13]>("[bool;13]"));
    v.push(Ty::of::<[bool;20]>("[bool;20]"));
    v.push(Ty::of::<[bool;28]>("[bool;28]"));
    v.push(Ty::of::<[bool;5]>("[bool;5]"));
}
