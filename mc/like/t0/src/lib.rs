// generated by tools/gen_like.py
use likesut::*;
pub fn all(v: &mut Vec<Ty>) {
    v.push(Ty::of::<(((Tri,bool,),Tri,),Option<Result<bool,Tri>>,)>("(((Tri,bool,),Tri,),Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),Result<Option<Never>,Option<bool>>,((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),[(bool,Tri,);2],)>("(((Tri,bool,),Tri,),[(bool,Tri,);2],)"));
    v.push(Ty::of::<(((Tri,bool,),Tri,),[Option<()>;4],((Tri,bool,),Tri,),)>("(((Tri,bool,),Tri,),[Option<()>;4],((Tri,bool,),Tri,),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)>("((),(),(),(),(),(),(),(),(),(),(),(),(),(),(),(),)"));
    v.push(Ty::of::<((),(),Tri,Two,)>("((),(),Tri,Two,)"));
    v.push(Ty::of::<((),D17,)>("((),D17,)"));
    v.push(Ty::of::<((),Five,Five,)>("((),Five,Five,)"));
    v.push(Ty::of::<((),Never,bool,)>("((),Never,bool,)"));
    v.push(Ty::of::<((),Option<Never>,)>("((),Option<Never>,)"));
    v.push(Ty::of::<((),Result<bool,()>,(),)>("((),Result<bool,()>,(),)"));
    v.push(Ty::of::<((),Tri,(),)>("((),Tri,(),)"));
    v.push(Ty::of::<((),Tri,Two,Tri,)>("((),Tri,Two,Tri,)"));
    v.push(Ty::of::<((),Two,Two,(),)>("((),Two,Two,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)>("((),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<((),Wide,(),Two,(),Wide,)>("((),Wide,(),Two,(),Wide,)"));
    v.push(Ty::of::<((),[bool;2],)>("((),[bool;2],)"));
    v.push(Ty::of::<((),bool,(),)>("((),bool,(),)"));
    v.push(Ty::of::<((),bool,One,Two,Tri,)>("((),bool,One,Two,Tri,)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),[(bool,Tri,);2],(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),[(bool,Tri,);2],(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Option<bool>,[Tri;2],),[Option<()>;4],(Option<bool>,[Tri;2],),)>("((Option<bool>,[Tri;2],),[Option<()>;4],(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<((Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,),)>("((Result<Never,Never>,bool,),Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<((Tri,),Never,(Tri,),)>("((Tri,),Never,(Tri,),)"));
    v.push(Ty::of::<((Tri,),Option<()>,)>("((Tri,),Option<()>,)"));
    v.push(Ty::of::<((Tri,),Result<Never,Tri>,)>("((Tri,),Result<Never,Tri>,)"));
    v.push(Ty::of::<((Tri,),Result<Tri,bool>,(Tri,),)>("((Tri,),Result<Tri,bool>,(Tri,),)"));
    v.push(Ty::of::<((Tri,),[bool;2],(Tri,),)>("((Tri,),[bool;2],(Tri,),)"));
    v.push(Ty::of::<((Tri,),bool,)>("((Tri,),bool,)"));
    v.push(Ty::of::<((bool,Tri,),(Tri,),(bool,Tri,),)>("((bool,Tri,),(Tri,),(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Option<Tri>,(bool,Tri,),)>("((bool,Tri,),Option<Tri>,(bool,Tri,),)"));
    v.push(Ty::of::<((bool,Tri,),Option<bool>,)>("((bool,Tri,),Option<bool>,)"));
    v.push(Ty::of::<(D17,One,)>("(D17,One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,)"));
    v.push(Ty::of::<(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)>("(Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),)"));
    v.push(Ty::of::<(Five,Five,Five,)>("(Five,Five,Five,)"));
    v.push(Ty::of::<(Five,Four,)>("(Five,Four,)"));
    v.push(Ty::of::<(Five,Never,bool,)>("(Five,Never,bool,)"));
    v.push(Ty::of::<(Five,bool,Never,)>("(Five,bool,Never,)"));
    v.push(Ty::of::<(Four,D17,)>("(Four,D17,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,)>("(Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)>("(Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,(),Four,bool,)"));
    v.push(Ty::of::<(Four,bool,)>("(Four,bool,)"));
    v.push(Ty::of::<(H63,(),)>("(H63,(),)"));
    v.push(Ty::of::<(H63,)>("(H63,)"));
    v.push(Ty::of::<(Never,(Tri,),)>("(Never,(Tri,),)"));
    v.push(Ty::of::<(Never,(bool,Tri,),Never,)>("(Never,(bool,Tri,),Never,)"));
    v.push(Ty::of::<(Never,H63,)>("(Never,H63,)"));
    v.push(Ty::of::<(Never,Never,Never,)>("(Never,Never,Never,)"));
    v.push(Ty::of::<(Never,Result<Never,Tri>,Never,)>("(Never,Result<Never,Tri>,Never,)"));
    v.push(Ty::of::<(Never,Result<Tri,bool>,)>("(Never,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Never,Two,)>("(Never,Two,)"));
    v.push(Ty::of::<(Never,[Tri;3],Never,)>("(Never,[Tri;3],Never,)"));
    v.push(Ty::of::<(One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)>("(One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,(),One,Five,)"));
    v.push(Ty::of::<(One,Five,)>("(One,Five,)"));
    v.push(Ty::of::<(One,Wide,)>("(One,Wide,)"));
    v.push(Ty::of::<(Option<()>,(Tri,),)>("(Option<()>,(Tri,),)"));
    v.push(Ty::of::<(Option<()>,Result<bool,()>,)>("(Option<()>,Result<bool,()>,)"));
    v.push(Ty::of::<(Option<()>,Tri,)>("(Option<()>,Tri,)"));
    v.push(Ty::of::<(Option<Never>,(Tri,),Option<Never>,)>("(Option<Never>,(Tri,),Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Never,Option<Never>,)>("(Option<Never>,Never,Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Option<Never>,)>("(Option<Never>,Option<Never>,)"));
    v.push(Ty::of::<(Option<Never>,Tri,Option<Never>,)>("(Option<Never>,Tri,Option<Never>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,((Tri,bool,),Tri,),Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,((Tri,bool,),Tri,),Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,Option<Result<bool,Tri>>,Option<Result<bool,Tri>>,)>("(Option<Result<bool,Tri>>,Option<Result<bool,Tri>>,Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<(Option<Result<bool,Tri>>,[(bool,Tri,);2],)>("(Option<Result<bool,Tri>>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<(Option<Tri>,(),Option<Tri>,)>("(Option<Tri>,(),Option<Tri>,)"));
    v.push(Ty::of::<(Option<Tri>,(bool,Tri,),)>("(Option<Tri>,(bool,Tri,),)"));
    v.push(Ty::of::<(Option<Tri>,Result<Tri,bool>,)>("(Option<Tri>,Result<Tri,bool>,)"));
    v.push(Ty::of::<(Option<Tri>,[Tri;0],)>("(Option<Tri>,[Tri;0],)"));
    v.push(Ty::of::<(Option<[Never;0]>,Option<[Never;0]>,Option<[Never;0]>,)>("(Option<[Never;0]>,Option<[Never;0]>,Option<[Never;0]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,(Option<bool>,[Tri;2],),)>("(Option<[Never;1]>,(Option<bool>,[Tri;2],),)"));
    v.push(Ty::of::<(Option<[Never;1]>,(Result<Never,Never>,bool,),)>("(Option<[Never;1]>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<(Option<[Never;1]>,Option<[Never;1]>,)>("(Option<[Never;1]>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>,)>("(Option<[Never;1]>,Result<(Tri,bool,),[bool;3]>,Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<[Never;1]>,[Option<()>;4],Option<[Never;1]>,)>("(Option<[Never;1]>,[Option<()>;4],Option<[Never;1]>,)"));
    v.push(Ty::of::<(Option<bool>,)>("(Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,Result<Never,Tri>,)>("(Option<bool>,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Option<bool>,Result<bool,()>,Option<bool>,)>("(Option<bool>,Result<bool,()>,Option<bool>,)"));
    v.push(Ty::of::<(Option<bool>,Tri,)>("(Option<bool>,Tri,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>,)>("(Result<(Tri,bool,),[bool;3]>,(Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>,)"));
    v.push(Ty::of::<(Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,),)>("(Result<(Tri,bool,),[bool;3]>,(Result<Never,Never>,bool,),)"));
    v.push(Ty::of::<(Result<Never,Tri>,(),)>("(Result<Never,Tri>,(),)"));
    v.push(Ty::of::<(Result<Never,Tri>,(bool,Tri,),)>("(Result<Never,Tri>,(bool,Tri,),)"));
    v.push(Ty::of::<(Result<Never,Tri>,(bool,Tri,),Result<Never,Tri>,)>("(Result<Never,Tri>,(bool,Tri,),Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Never,Tri>,[Tri;3],)>("(Result<Never,Tri>,[Tri;3],)"));
    v.push(Ty::of::<(Result<Never,Tri>,[Tri;3],Result<Never,Tri>,)>("(Result<Never,Tri>,[Tri;3],Result<Never,Tri>,)"));
    v.push(Ty::of::<(Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>,)>("(Result<Option<Never>,Option<bool>>,Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,(),Result<Tri,bool>,)>("(Result<Tri,bool>,(),Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,(Tri,),)>("(Result<Tri,bool>,(Tri,),)"));
    v.push(Ty::of::<(Result<Tri,bool>,Option<()>,)>("(Result<Tri,bool>,Option<()>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,[Tri;0],Result<Tri,bool>,)>("(Result<Tri,bool>,[Tri;0],Result<Tri,bool>,)"));
    v.push(Ty::of::<(Result<Tri,bool>,bool,)>("(Result<Tri,bool>,bool,)"));
    v.push(Ty::of::<(Result<bool,()>,)>("(Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Option<Never>,Result<bool,()>,)>("(Result<bool,()>,Option<Never>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,Result<Never,Tri>,Result<bool,()>,)>("(Result<bool,()>,Result<Never,Tri>,Result<bool,()>,)"));
    v.push(Ty::of::<(Result<bool,()>,[Tri;0],)>("(Result<bool,()>,[Tri;0],)"));
    v.push(Ty::of::<(Tri,(),(),(),)>("(Tri,(),(),(),)"));
    v.push(Ty::of::<(Tri,(),Two,Two,)>("(Tri,(),Two,Two,)"));
    v.push(Ty::of::<(Tri,(),bool,)>("(Tri,(),bool,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,)>("(Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)>("(Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<(Tri,Never,Five,)>("(Tri,Never,Five,)"));
    v.push(Ty::of::<(Tri,Option<()>,)>("(Tri,Option<()>,)"));
    v.push(Ty::of::<(Tri,Result<Never,Tri>,)>("(Tri,Result<Never,Tri>,)"));
    v.push(Ty::of::<(Tri,Tri,(),Two,)>("(Tri,Tri,(),Two,)"));
    v.push(Ty::of::<(Tri,Two,(),Tri,)>("(Tri,Two,(),Tri,)"));
    v.push(Ty::of::<(Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Tri,[Tri;0],Tri,)>("(Tri,[Tri;0],Tri,)"));
    v.push(Ty::of::<(Tri,[Tri;3],)>("(Tri,[Tri;3],)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(Two,(),(),(),)>("(Two,(),(),(),)"));
    v.push(Ty::of::<(Two,(),Two,Two,)>("(Two,(),Two,Two,)"));
    v.push(Ty::of::<(Two,Never,)>("(Two,Never,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,)"));
    v.push(Ty::of::<(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)>("(Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,Tri,Two,)"));
    v.push(Ty::of::<(Two,Two,Two,(),)>("(Two,Two,Two,(),)"));
    v.push(Ty::of::<(Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)>("(Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),Wide,(),Two,(),)"));
    v.push(Ty::of::<(Wide,Five,)>("(Wide,Five,)"));
    v.push(Ty::of::<(Wide,bool,)>("(Wide,bool,)"));
    v.push(Ty::of::<([(bool,Tri,);2],)>("([(bool,Tri,);2],)"));
    v.push(Ty::of::<([(bool,Tri,);2],Option<Result<bool,Tri>>,)>("([(bool,Tri,);2],Option<Result<bool,Tri>>,)"));
    v.push(Ty::of::<([(bool,Tri,);2],Option<Result<bool,Tri>>,[(bool,Tri,);2],)>("([(bool,Tri,);2],Option<Result<bool,Tri>>,[(bool,Tri,);2],)"));
    v.push(Ty::of::<([Option<()>;4],Result<Option<Never>,Option<bool>>,[Option<()>;4],)>("([Option<()>;4],Result<Option<Never>,Option<bool>>,[Option<()>;4],)"));
    v.push(Ty::of::<([Tri;0],Never,[Tri;0],)>("([Tri;0],Never,[Tri;0],)"));
    v.push(Ty::of::<([Tri;0],Option<Tri>,)>("([Tri;0],Option<Tri>,)"));
    v.push(Ty::of::<([Tri;0],Tri,[Tri;0],)>("([Tri;0],Tri,[Tri;0],)"));
    v.push(Ty::of::<([Tri;3],(bool,Tri,),)>("([Tri;3],(bool,Tri,),)"));
    v.push(Ty::of::<([Tri;3],Never,)>("([Tri;3],Never,)"));
    v.push(Ty::of::<([Tri;3],Option<()>,[Tri;3],)>("([Tri;3],Option<()>,[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],[Tri;0],[Tri;3],)>("([Tri;3],[Tri;0],[Tri;3],)"));
    v.push(Ty::of::<([Tri;3],[bool;2],)>("([Tri;3],[bool;2],)"));
    v.push(Ty::of::<([bool;2],(bool,Tri,),[bool;2],)>("([bool;2],(bool,Tri,),[bool;2],)"));
    v.push(Ty::of::<([bool;2],Option<Never>,[bool;2],)>("([bool;2],Option<Never>,[bool;2],)"));
    v.push(Ty::of::<([bool;2],Result<bool,()>,[bool;2],)>("([bool;2],Result<bool,()>,[bool;2],)"));
    v.push(Ty::of::<([bool;2],Tri,)>("([bool;2],Tri,)"));
    v.push(Ty::of::<([bool;2],[Tri;3],[bool;2],)>("([bool;2],[Tri;3],[bool;2],)"));
    v.push(Ty::of::<(bool,(Tri,),)>("(bool,(Tri,),)"));
    v.push(Ty::of::<(bool,)>("(bool,)"));
    v.push(Ty::of::<(bool,Four,)>("(bool,Four,)"));
    v.push(Ty::of::<(bool,Never,Never,)>("(bool,Never,Never,)"));
    v.push(Ty::of::<(bool,One,Two,Tri,(),bool,)>("(bool,One,Two,Tri,(),bool,)"));
    v.push(Ty::of::<(bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)>("(bool,One,Two,Tri,(),bool,One,Two,Tri,(),bool,One,Two,)"));
    v.push(Ty::of::<(bool,Result<Tri,bool>,)>("(bool,Result<Tri,bool>,)"));
    v.push(Ty::of::<(bool,Tri,)>("(bool,Tri,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,[Tri;3],bool,)>("(bool,[Tri;3],bool,)"));
    v.push(Ty::of::<(bool,bool,bool,Never,bool,bool,bool,)>("(bool,bool,bool,Never,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Never,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,Tri,)"));
    v.push(Ty::of::<(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)>("(bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,bool,)"));
    v.push(Ty::of::<Four>("Four"));
    v.push(Ty::of::<Option<(bool,Tri,)>>("Option<(bool,Tri,)>"));
    v.push(Ty::of::<Option<Four>>("Option<Four>"));
    v.push(Ty::of::<Option<Option<Four>>>("Option<Option<Four>>"));
    v.push(Ty::of::<Option<Option<Option<Four>>>>("Option<Option<Option<Four>>>"));
    v.push(Ty::of::<Option<Option<Option<bool>>>>("Option<Option<Option<bool>>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<(Result<Never,Never>,bool,)>>>>("Option<Result<((Tri,bool,),Tri,),Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Result<((Tri,bool,),Tri,),Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<((Tri,bool,),Tri,),Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<Option<[Never;0]>>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<(Option<bool>,[Tri;2],),Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<(Option<bool>,[Tri;2],),Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<(Result<Never,Never>,bool,)>>>>("Option<Result<(Result<Never,Never>,bool,),Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Result<(Result<Never,Never>,bool,),Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<(Result<Never,Never>,bool,),Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<(Option<bool>,[Tri;2],)>>>>("Option<Result<Option<[Never;1]>,Option<(Option<bool>,[Tri;2],)>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<(Result<Never,Never>,bool,)>>>>("Option<Result<Option<[Never;1]>,Option<(Result<Never,Never>,bool,)>>>"));
    v.push(Ty::of::<Option<Result<Option<[Never;1]>,Option<Option<[Never;0]>>>>>("Option<Result<Option<[Never;1]>,Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<((Tri,bool,),Tri,)>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<((Tri,bool,),Tri,)>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<Option<[Never;0]>>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<Option<[Never;0]>>>>"));
    v.push(Ty::of::<Option<Result<Result<Option<Never>,Option<bool>>,Option<Result<(Tri,bool,),[bool;3]>>>>>("Option<Result<Result<Option<Never>,Option<bool>>,Option<Result<(Tri,bool,),[bool;3]>>>>"));
    v.push(Ty::of::<Option<Result<[(bool,Tri,);2],Option<Result<Option<Never>,Option<bool>>>>>>("Option<Result<[(bool,Tri,);2],Option<Result<Option<Never>,Option<bool>>>>>"));
    v.push(Ty::of::<Option<Result<[Option<()>;4],Option<[(bool,Tri,);2]>>>>("Option<Result<[Option<()>;4],Option<[(bool,Tri,);2]>>>"));
    v.push(Ty::of::<Option<Two>>("Option<Two>"));
    v.push(Ty::of::<Result<(),()>>("Result<(),()>"));
    v.push(Ty::of::<Result<(),Option<()>>>("Result<(),Option<()>>"));
    v.push(Ty::of::<Result<(),Result<Tri,bool>>>("Result<(),Result<Tri,bool>>"));
    v.push(Ty::of::<Result<(),[Tri;3]>>("Result<(),[Tri;3]>"));
    v.push(Ty::of::<Result<(Option<bool>,[Tri;2],),[(bool,Tri,);2]>>("Result<(Option<bool>,[Tri;2],),[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),(Result<Never,Never>,bool,)>>("Result<(Result<Never,Never>,bool,),(Result<Never,Never>,bool,)>"));
    v.push(Ty::of::<Result<(Result<Never,Never>,bool,),[(bool,Tri,);2]>>("Result<(Result<Never,Never>,bool,),[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<(Tri,),(bool,Tri,)>>("Result<(Tri,),(bool,Tri,)>"));
    v.push(Ty::of::<Result<(Tri,),Result<bool,()>>>("Result<(Tri,),Result<bool,()>>"));
    v.push(Ty::of::<Result<(Tri,),Tri>>("Result<(Tri,),Tri>"));
    v.push(Ty::of::<Result<(bool,Tri,),[Tri;0]>>("Result<(bool,Tri,),[Tri;0]>"));
    v.push(Ty::of::<Result<D17,H63>>("Result<D17,H63>"));
    v.push(Ty::of::<Result<Five,D17>>("Result<Five,D17>"));
    v.push(Ty::of::<Result<Five,Two>>("Result<Five,Two>"));
    v.push(Ty::of::<Result<Four,H63>>("Result<Four,H63>"));
    v.push(Ty::of::<Result<H62,D17>>("Result<H62,D17>"));
    v.push(Ty::of::<Result<H62,Two>>("Result<H62,Two>"));
    v.push(Ty::of::<Result<H63,Never>>("Result<H63,Never>"));
    v.push(Ty::of::<Result<Never,Five>>("Result<Never,Five>"));
    v.push(Ty::of::<Result<Never,Option<Tri>>>("Result<Never,Option<Tri>>"));
    v.push(Ty::of::<Result<Never,Result<bool,()>>>("Result<Never,Result<bool,()>>"));
    v.push(Ty::of::<Result<Never,bool>>("Result<Never,bool>"));
    v.push(Ty::of::<Result<One,One>>("Result<One,One>"));
    v.push(Ty::of::<Result<Option<()>,Option<Never>>>("Result<Option<()>,Option<Never>>"));
    v.push(Ty::of::<Result<Option<Never>,()>>("Result<Option<Never>,()>"));
    v.push(Ty::of::<Result<Option<Never>,Result<bool,()>>>("Result<Option<Never>,Result<bool,()>>"));
    v.push(Ty::of::<Result<Option<Never>,[Tri;3]>>("Result<Option<Never>,[Tri;3]>"));
    v.push(Ty::of::<Result<Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>>>("Result<Option<Result<bool,Tri>>,Result<Option<Never>,Option<bool>>>"));
    v.push(Ty::of::<Result<Option<Tri>,Option<bool>>>("Result<Option<Tri>,Option<bool>>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,Option<Result<bool,Tri>>>>("Result<Option<[Never;0]>,Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>>>("Result<Option<[Never;0]>,Result<(Tri,bool,),[bool;3]>>"));
    v.push(Ty::of::<Result<Option<[Never;0]>,[Option<()>;4]>>("Result<Option<[Never;0]>,[Option<()>;4]>"));
    v.push(Ty::of::<Result<Option<bool>,Option<Tri>>>("Result<Option<bool>,Option<Tri>>"));
    v.push(Ty::of::<Result<Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>>>("Result<Result<(Tri,bool,),[bool;3]>,Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,()>>("Result<Result<Never,Tri>,()>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,Result<Never,Tri>>>("Result<Result<Never,Tri>,Result<Never,Tri>>"));
    v.push(Ty::of::<Result<Result<Never,Tri>,[Tri;3]>>("Result<Result<Never,Tri>,[Tri;3]>"));
    v.push(Ty::of::<Result<Result<Option<Never>,Option<bool>>,[(bool,Tri,);2]>>("Result<Result<Option<Never>,Option<bool>>,[(bool,Tri,);2]>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,Option<()>>>("Result<Result<Tri,bool>,Option<()>>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,Result<bool,()>>>("Result<Result<Tri,bool>,Result<bool,()>>"));
    v.push(Ty::of::<Result<Result<Tri,bool>,bool>>("Result<Result<Tri,bool>,bool>"));
    v.push(Ty::of::<Result<Result<bool,()>,[Tri;0]>>("Result<Result<bool,()>,[Tri;0]>"));
    v.push(Ty::of::<Result<Tri,D17>>("Result<Tri,D17>"));
    v.push(Ty::of::<Result<Tri,Option<Never>>>("Result<Tri,Option<Never>>"));
    v.push(Ty::of::<Result<Tri,[bool;2]>>("Result<Tri,[bool;2]>"));
    v.push(Ty::of::<Result<Two,Never>>("Result<Two,Never>"));
    v.push(Ty::of::<Result<Wide,Five>>("Result<Wide,Five>"));
    v.push(Ty::of::<Result<Wide,Wide>>("Result<Wide,Wide>"));
    v.push(Ty::of::<Result<[(bool,Tri,);2],[Option<()>;4]>>("Result<[(bool,Tri,);2],[Option<()>;4]>"));
    v.push(Ty::of::<Result<[Option<()>;4],Option<Result<bool,Tri>>>>("Result<[Option<()>;4],Option<Result<bool,Tri>>>"));
    v.push(Ty::of::<Result<[Tri;0],Option<Never>>>("Result<[Tri;0],Option<Never>>"));
    v.push(Ty::of::<Result<[Tri;3],()>>("Result<[Tri;3],()>"));
    v.push(Ty::of::<Result<[Tri;3],Result<Tri,bool>>>("Result<[Tri;3],Result<Tri,bool>>"));
    v.push(Ty::of::<Result<[Tri;3],[Tri;3]>>("Result<[Tri;3],[Tri;3]>"));
    v.push(Ty::of::<Result<[bool;2],Option<bool>>>("Result<[bool;2],Option<bool>>"));
    v.push(Ty::of::<Result<bool,Five>>("Result<bool,Five>"));
    v.push(Ty::of::<Result<bool,Option<Tri>>>("Result<bool,Option<Tri>>"));
    v.push(Ty::of::<Result<bool,Result<Tri,bool>>>("Result<bool,Result<Tri,bool>>"));
    v.push(Ty::of::<Result<bool,bool>>("Result<bool,bool>"));
    v.push(Ty::of::<Two>("Two"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),(Option<bool>,[Tri;2],),);2]>("[(((Tri,bool,),Tri,),(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[(((Tri,bool,),Tri,),Option<[Never;1]>,);2]>("[(((Tri,bool,),Tri,),Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),Option<[Never;1]>,);2]>("[((Option<bool>,[Tri;2],),Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>,);2]>("[((Option<bool>,[Tri;2],),Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[((Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>,);2]>("[((Option<bool>,[Tri;2],),Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[();15]>("[();15]"));
    v.push(Ty::of::<[();22]>("[();22]"));
    v.push(Ty::of::<[();2]>("[();2]"));
    v.push(Ty::of::<[();7]>("[();7]"));
    v.push(Ty::of::<[(Option<Result<bool,Tri>>,Option<[Never;1]>,);2]>("[(Option<Result<bool,Tri>>,Option<[Never;1]>,);2]"));
    v.push(Ty::of::<[(Option<[Never;0]>,((Tri,bool,),Tri,),);2]>("[(Option<[Never;0]>,((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,(Option<bool>,[Tri;2],),);2]>("[(Option<[Never;1]>,(Option<bool>,[Tri;2],),);2]"));
    v.push(Ty::of::<[(Option<[Never;1]>,(Result<Never,Never>,bool,),);2]>("[(Option<[Never;1]>,(Result<Never,Never>,bool,),);2]"));
    v.push(Ty::of::<[(Option<bool>,[Tri;2],);2]>("[(Option<bool>,[Tri;2],);2]"));
    v.push(Ty::of::<[(Result<Option<Never>,Option<bool>>,Option<[Never;0]>,);2]>("[(Result<Option<Never>,Option<bool>>,Option<[Never;0]>,);2]"));
    v.push(Ty::of::<[([(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>,);2]>("[([(bool,Tri,);2],Result<(Tri,bool,),[bool;3]>,);2]"));
    v.push(Ty::of::<[([(bool,Tri,);2],Result<Option<Never>,Option<bool>>,);2]>("[([(bool,Tri,);2],Result<Option<Never>,Option<bool>>,);2]"));
    v.push(Ty::of::<[([Option<()>;4],((Tri,bool,),Tri,),);2]>("[([Option<()>;4],((Tri,bool,),Tri,),);2]"));
    v.push(Ty::of::<[([Option<()>;4],[(bool,Tri,);2],);2]>("[([Option<()>;4],[(bool,Tri,);2],);2]"));
    v.push(Ty::of::<[(bool,Tri,);3]>("[(bool,Tri,);3]"));
    v.push(Ty::of::<[D17;14]>("[D17;14]"));
    v.push(Ty::of::<[D17;7]>("[D17;7]"));
    v.push(Ty::of::<[Five;14]>("[Five;14]"));
    v.push(Ty::of::<[Five;21]>("[Five;21]"));
    v.push(Ty::of::<[Five;3]>("[Five;3]"));
    v.push(Ty::of::<[Four;10]>("[Four;10]"));
    v.push(Ty::of::<[Four;18]>("[Four;18]"));
    v.push(Ty::of::<[Four;25]>("[Four;25]"));
    v.push(Ty::of::<[Four;3]>("[Four;3]"));
    v.push(Ty::of::<[H62;1]>("[H62;1]"));
    v.push(Ty::of::<[Never;14]>("[Never;14]"));
    v.push(Ty::of::<[Never;21]>("[Never;21]"));
    v.push(Ty::of::<[Never;29]>("[Never;29]"));
    v.push(Ty::of::<[Never;6]>("[Never;6]"));
    v.push(Ty::of::<[One;13]>("[One;13]"));
    v.push(Ty::of::<[One;20]>("[One;20]"));
    v.push(Ty::of::<[One;28]>("[One;28]"));
    v.push(Ty::of::<[One;5]>("[One;5]"));
    v.push(Ty::of::<[Option<()>;3]>("[Option<()>;3]"));
    v.push(Ty::of::<[Option<Tri>;3]>("[Option<Tri>;3]"));
    v.push(Ty::of::<[Option<bool>;3]>("[Option<bool>;3]"));
    v.push(Ty::of::<[Result<Never,Tri>;1]>("[Result<Never,Tri>;1]"));
    v.push(Ty::of::<[Result<Tri,bool>;3]>("[Result<Tri,bool>;3]"));
    v.push(Ty::of::<[Tri;16]>("[Tri;16]"));
    v.push(Ty::of::<[Tri;23]>("[Tri;23]"));
    v.push(Ty::of::<[Tri;30]>("[Tri;30]"));
    v.push(Ty::of::<[Tri;8]>("[Tri;8]"));
    v.push(Ty::of::<[Two;15]>("[Two;15]"));
    v.push(Ty::of::<[Two;22]>("[Two;22]"));
    v.push(Ty::of::<[Two;2]>("[Two;2]"));
    v.push(Ty::of::<[Two;7]>("[Two;7]"));
    v.push(Ty::of::<[Wide;14]>("[Wide;14]"));
    v.push(Ty::of::<[Wide;21]>("[Wide;21]"));
    v.push(Ty::of::<[Wide;29]>("[Wide;29]"));
    v.push(Ty::of::<[Wide;6]>("[Wide;6]"));
    v.push(Ty::of::<[[Tri;0];2]>("[[Tri;0];2]"));
    v.push(Ty::of::<[[bool;2];2]>("[[bool;2];2]"));
    v.push(Ty::of::<[bool;15]>("[bool;15]"));
    v.push(Ty::of::<[bool;22]>("[bool;22]"));
    v.push(Ty::of::<[bool;2]>("[bool;2]"));
    v.push(Ty::of::<[bool;7]>("[bool;7]"));
}
